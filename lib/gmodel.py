"""Reference graphs: generation, text forms, conversion with the repository's converter, and expected answers."""
import json
import os
import shutil

import numpy as np

DTYPES = {
    "float64": "double_feature",
    "float32": "float_feature",
    "float16": "float16_feature",
    "uint64": "uint64_feature",
    "int64": "int64_feature",
    "uint32": "uint32_feature",
    "int32": "int32_feature",
    "uint16": "uint16_feature",
    "int16": "int16_feature",
    "uint8": "uint8_feature",
    "int8": "int8_feature",
}


class Feat:
    """kind: dense (values), sparse (coords, values), string (text), versions (list of (created, values))."""

    __slots__ = ("kind", "dtype", "values", "coords", "text", "versions")

    def __init__(self, kind, dtype=None, values=None, coords=None, text=None, versions=None):
        self.kind, self.dtype, self.values, self.coords, self.text, self.versions = kind, dtype, values, coords, text, versions

    def bytes_at(self, ts=None):
        """Raw bytes a dense or string query reads; empty when there is no version yet."""
        if self.kind == "string":
            return self.text.encode("utf-8")
        if self.kind == "dense":
            return np.array(self.values, dtype=self.dtype).tobytes()
        if self.kind == "versions":
            best = None
            for c, v in self.versions:
                if c <= ts and (best is None or c > best[0]):
                    best = (c, v)
            return b"" if best is None else np.array(best[1], dtype=self.dtype).tobytes()
        raise ValueError(self.kind)

    def describe(self):
        return {k: getattr(self, k) for k in self.__slots__ if getattr(self, k) is not None}


class Node:
    __slots__ = ("id", "type", "weight", "feats", "blanks")

    def __init__(self, id, type, weight, feats=None):
        self.id, self.type, self.weight, self.feats = id, type, weight, feats or {}
        self.blanks = {}


class Edge:
    __slots__ = ("src", "dst", "type", "weight", "feats", "created", "removed", "blanks")

    def __init__(self, src, dst, type, weight, feats=None, created=0, removed=-1):
        self.src, self.dst, self.type, self.weight, self.feats = src, dst, type, weight, feats or {}
        self.created, self.removed = created, removed
        self.blanks = {}

    def alive(self, ts):
        return ts is None or (self.created <= ts and (self.removed == -1 or self.removed > ts))

    def key(self):
        return (self.src, self.dst, self.type)


class Graph:
    def __init__(self, watermark=None):
        self.nodes = {}
        self.edges = []
        self.watermark = watermark
        self.base = 0
        # Times of the nodes; edges that have the same times leave them out in JSON form and inherit.
        self.node_times = {}
        self._out = None

    @property
    def temporal(self):
        return self.watermark is not None

    def out(self, node):
        if self._out is None:
            self._out = {}
            for e in self.edges:
                self._out.setdefault(e.src, []).append(e)
        return self._out.get(node, [])

    def neighbors(self, node, types, ts=None):
        types = set(types)
        return [e for e in self.out(node) if e.type in types and e.alive(ts)]

    def find(self, src, dst, tp):
        return [e for e in self.out(src) if e.dst == dst and e.type == tp]

    def node_types(self):
        return sorted({n.type for n in self.nodes.values()})

    def edge_types(self):
        return sorted({e.type for e in self.edges})

    def n_node_types(self):
        return max([n.type for n in self.nodes.values()], default=-1) + 1

    def n_edge_types(self):
        return max([e.type for e in self.edges], default=-1) + 1

    def subset(self, ids):
        """The part of the graph whose source nodes are in ids."""
        g = Graph(self.watermark)
        ids = set(ids)
        g.nodes = {i: n for i, n in self.nodes.items() if i in ids}
        g.edges = [e for e in self.edges if e.src in ids]
        return g

    def summary(self):
        return {
            "nodes": len(self.nodes),
            "edges": len(self.edges),
            "node_types": self.node_types(),
            "edge_types": self.edge_types(),
            "temporal": self.temporal,
            "first": [
                {"id": n.id, "type": n.type, "weight": n.weight, "features": {k: f.describe() for k, f in list(n.feats.items())[:2]}}
                for n in list(self.nodes.values())[:2]
            ],
        }


def features_json(feats, blanks):
    """blanks are features given without any value, which read like missing ones."""
    res = {}
    for fid, kind in blanks.items():
        value = {"coordinates": [], "values": []} if kind.startswith("sparse") else "" if kind == "binary_feature" else []
        res.setdefault(kind, {})[str(fid)] = value
    for fid, f in feats.items():
        if f.kind == "string":
            res.setdefault("binary_feature", {})[str(fid)] = f.text
        elif f.kind == "sparse":
            res.setdefault("sparse_" + DTYPES[f.dtype], {})[str(fid)] = {"coordinates": f.coords, "values": f.values}
        elif f.kind == "versions":
            res.setdefault(DTYPES[f.dtype], {})[str(fid)] = [{"created_at": c, "values": v} for c, v in f.versions]
        else:
            res.setdefault(DTYPES[f.dtype], {})[str(fid)] = f.values
    return res


def json_line(g, n):
    d = {"node_id": n.id, "node_type": n.type, "node_weight": n.weight, "edge": []}
    d.update(features_json(n.feats, n.blanks))
    for e in g.out(n.id):
        ed = {"src_id": e.src, "dst_id": e.dst, "edge_type": e.type, "weight": e.weight}
        ed.update(features_json(e.feats, e.blanks))
        if g.temporal and g.node_times.get(n.id) != (e.created, e.removed):
            ed["created_at"], ed["removed_at"] = e.created, e.removed
        d["edge"].append(ed)
    if g.temporal:
        d["created_at"], d["removed_at"] = g.node_times.get(n.id, (0, -1))
    return json.dumps(d)


def json_lines(g):
    return [json_line(g, n) for n in g.nodes.values()]


NUMERIC = sorted(DTYPES)


def rand_values(r, dtype, n):
    dt = np.dtype(dtype)
    if dt.kind == "f":
        # Exactly representable in the type, so that text round trips cannot blur the comparison.
        return [float(r.randint(-512, 512)) / 4 for _ in range(n)]
    info = np.iinfo(dt)
    res = []
    for _ in range(n):
        c = r.random()
        if c < 0.1:
            res.append(int(info.max))
        elif c < 0.2:
            res.append(int(info.min))
        else:
            res.append(r.randint(max(info.min, -1000), min(info.max, 1000)))
    return res


WORDS = ["", "a", "word", "long text with spaces", "ünïcödé", "日本語", "x" * 300, "tab", "{json}", "0"]


def rand_feature(r, kinds, size=None):
    kind = r.choice(kinds)
    if kind == "string":
        text = "".join(r.choice(WORDS) for _ in range(r.randint(1, 3))) or "s"
        return Feat("string", text=text)
    dtype = r.choice(NUMERIC)
    if kind == "dense":
        return Feat("dense", dtype, rand_values(r, dtype, size or r.choice([1, 2, 3, 5, 17])))
    if kind == "sparse":
        # The stored form needs more than twelve bytes, which every entry with two coordinates has.
        dim = r.randint(1, 3)
        n = r.randint(2, 5)
        coords = [[r.randint(0, 2**40 if r.random() < 0.2 else 50) for _ in range(dim)] for _ in range(n)]
        if dim == 1 and r.random() < 0.5:
            coords = [c[0] for c in coords]
        return Feat("sparse", dtype, rand_values(r, dtype, n), coords)
    if kind == "versions":
        n = r.randint(1, 4)
        created = sorted(r.sample(range(0, 40), n))
        size = size or r.choice([1, 2, 3, 5])
        return Feat("versions", dtype, versions=[(c, rand_values(r, dtype, size)) for c in created])
    raise ValueError(kind)


def rand_feats(r, layout, prob):
    """layout: {feature id: kinds}; prob: chance that an element has a feature at all."""
    if r.random() > prob:
        return {}
    return {fid: rand_feature(r, kinds) for fid, kinds in layout.items() if r.random() < 0.75}


def rand_blanks(r, feats):
    """Some gaps between the features; the last feature stays a real one."""
    gaps = [i for i in range(max(feats, default=0)) if i not in feats]
    kinds = ["binary_feature", "sparse_float_feature", "sparse_int64_feature", "float_feature", "uint8_feature"]
    return {i: r.choice(kinds) for i in gaps if r.random() < 0.4}


def rand_layout(r, kinds, max_features=4, gap=True):
    n = r.randint(1, max_features)
    ids = sorted(r.sample(range(0, n + (2 if gap else 0)), n))
    return {i: [r.choice(kinds)] if r.random() < 0.7 else kinds for i in ids}


WEIGHTS = {
    # Multiples of 1/4 with small sums are exact in single precision, in any order of addition.
    "exact": lambda r: r.randint(1, 40) / 4,
    "exact0": lambda r: r.choice([0, 0, 1, 2, 3, 8]) / 4,
    "equal": lambda r: 1.0,
    "skewed": lambda r: float(np.float32(10.0 ** r.uniform(-4, 4))),
}


def rand_ids(r, n):
    c = r.random()
    if c < 0.5:
        return list(range(n))
    if c < 0.7:
        return r.sample(range(n * 10 + 10), n)
    if c < 0.85:
        base = r.choice([2**31 - 3, 2**32 - 2, 2**53 - 1, 2**62])
        return [base + i for i in range(n)]
    return sorted({r.randint(0, 2**62) for _ in range(n)} | {0})[:n]


def random_graph(r, nodes=12, ntypes=3, etypes=4, degree=5, kinds=("dense", "sparse", "string"), weights="exact", node_weights=None, temporal=False, features=0.8, parallel=0.0, big_time=False, dangling=0.1):
    """degree is the largest out degree; some nodes have none, one may have many more."""
    tmax = 40
    base = r.choice([2**31 - 20, 2**32 - 20, 2**40]) if big_time else 0
    if temporal and not big_time and r.random() < 0.2:
        # Everything known happened at the first moment.
        tmax = 0
    g = Graph(base + tmax if temporal else None)
    g.base = base
    ids = rand_ids(r, nodes)
    nt = r.sample(range(ntypes + 1), ntypes) if r.random() < 0.3 else list(range(ntypes))
    et = sorted(r.sample(range(etypes + 2), etypes)) if r.random() < 0.5 else list(range(etypes))
    if temporal:
        kinds = ("versions",)
    nl = rand_layout(r, kinds) if features else {}
    el = rand_layout(r, kinds) if features else {}
    w = WEIGHTS[weights]
    nw = WEIGHTS[node_weights or weights]
    for i in ids:
        g.nodes[i] = Node(i, r.choice(nt), nw(r), rand_feats(r, nl, features))
    targets = list(ids)
    if dangling:
        targets += [max(ids) + 1 + k for k in range(max(1, int(nodes * dangling)))]
    for k, i in enumerate(ids):
        d = r.choice([0, 1, r.randint(0, degree), degree])
        if k == 0:
            d = degree * 3
        seen = set()
        mine = r.sample(et, r.randint(1, len(et)))
        for _ in range(d):
            dst, tp = r.choice(targets), r.choice(mine)
            if (dst, tp) in seen and r.random() >= parallel:
                continue
            dup = (dst, tp) in seen
            seen.add((dst, tp))
            e = Edge(i, dst, tp, w(r), {} if dup else rand_feats(r, el, features))
            if temporal:
                e.created = r.randint(0, tmax)
                e.removed = -1 if r.random() < 0.45 else r.randint(e.created + 1, tmax + 3)
                e.created += base
                e.removed += base if e.removed != -1 else 0
            g.edges.append(e)
    if base:
        for el_ in list(g.nodes.values()) + g.edges:
            for f in el_.feats.values():
                f.versions = [(c + base, v) for c, v in f.versions]
    if not temporal:
        for it in list(g.nodes.values()) + g.edges:
            it.blanks = rand_blanks(r, it.feats)
    # Parallel edges share a key; feature queries on them would be ambiguous, so none of the copies has features.
    count = {}
    for e in g.edges:
        count[e.key()] = count.get(e.key(), 0) + 1
    for e in g.edges:
        if count[e.key()] > 1:
            e.feats, e.blanks = {}, {}
    return g


def dense_items(feats, upto=None):
    """Features in order of their id, None for the missing ones."""
    n = max(feats, default=-1) + 1
    return [feats.get(i) for i in range(n)]


def edge_list_feature(f):
    if f is None:
        return ["int32", "0"]
    if f.kind == "string":
        return ["binary", "1", f.text.replace(",", "\\,")]
    if f.kind == "sparse":
        flat = not isinstance(f.coords[0], (list, tuple))
        dim = 0 if flat else len(f.coords[0])
        coords = f.coords if flat else [c for row in f.coords for c in row]
        return [f.dtype, "%d/%d" % (len(f.values), dim)] + [str(c) for c in coords] + [repr(v) for v in f.values]
    return [f.dtype, str(len(f.values))] + [repr(v) for v in f.values]


def edge_list_lines(g):
    """Nodes in order, each followed by its edges sorted by type."""
    for n in g.nodes.values():
        head = [str(n.id), "-1", str(n.type), repr(n.weight)]
        if g.temporal:
            head += ["0", "-1"]
        for f in dense_items(n.feats):
            head += edge_list_feature(f)
        yield ",".join(head)
        edges = g.out(n.id)
        for e in sorted(edges, key=lambda e: (e.type, e.created, e.dst) if g.temporal else (e.type,)):
            row = [str(e.src), str(e.type), str(e.dst), repr(e.weight)]
            if g.temporal:
                row += [str(e.created), str(e.removed)]
            for f in dense_items(e.feats):
                row += edge_list_feature(f)
            yield ",".join(row)


TSV_CODES = {"float64": "d", "float32": "f", "float16": "f16"}


def tsv_features(feats):
    res = []
    for f in dense_items(feats):
        if f is None:
            res.append("")
        elif f.kind == "string":
            res.append("b:" + f.text)
        else:
            code = TSV_CODES.get(f.dtype) or f.dtype.replace("uint", "u").replace("int", "i")
            res.append("%s:%s" % (code, " ".join(repr(v) for v in f.values)))
    return ";".join(res)


def tsv_lines(g):
    for n in g.nodes.values():
        edges = ["%d,%d,%r,%s" % (e.dst, e.type, e.weight, tsv_features(e.feats)) for e in g.out(n.id)]
        yield "\t".join([str(n.id), str(n.type), repr(n.weight), tsv_features(n.feats), "|".join(edges)])


def write_lines(path, lines):
    with open(path, "w", encoding="utf-8", newline="\n") as f:
        for line in lines:
            f.write(line + "\n")


def spread_lines(g):
    """JSON lines with the edges on lines of their own, so that they can go to other partitions than their source."""
    for n in g.nodes.values():
        d = json.loads(json_line(g, n))
        edges, d["edge"] = d["edge"], []
        yield json.dumps(d)
        for e in sorted(edges, key=lambda e: (e["edge_type"], e.get("created_at", 0), e["dst_id"])):
            yield json.dumps({"node_id": n.id, "node_type": n.type, "node_weight": 0, "edge": [e], "edges_only": True})


def spread_decoder():
    from deepgnn.graph_engine.snark.decoders import JsonDecoder

    class SpreadDecoder(JsonDecoder):
        """A decoder may yield edges without their source node."""

        def decode(self, line):
            only = json.loads(line).get("edges_only", False)
            for item in super().decode(line):
                if not (only and item[1] == -1):
                    yield item

    return SpreadDecoder()


def convert(g, out, partitions=1, assign=None, edge_assign=None, where=None, **kw):
    """Convert with the repository's converter. assign maps a node id to its partition.

    With edge_assign (a function of source and running number) the edges of one node are spread over partitions;
    where (a dict) then receives the partition of each edge by source, destination and type.
    """
    from deepgnn.graph_engine.snark import decoders
    from deepgnn.graph_engine.snark.convert import MultiWorkersConverter
    from deepgnn.graph_engine.snark.dispatcher import QueueDispatcher

    os.makedirs(out, exist_ok=True)
    src = out.rstrip("/") + ".input"
    assign = assign or (lambda i: 0)
    skip = {k: kw[k] for k in ("skip_node_sampler", "skip_edge_sampler") if k in kw}
    number = [0]

    def part(line):
        d = json.loads(line)
        if d.get("edges_only"):
            number[0] += 1
            p = edge_assign(d["node_id"], number[0])
            if where is not None:
                e = d["edge"][0]
                where[d["node_id"], e["dst_id"], e["edge_type"]] = p
            return p
        return assign(d["node_id"])

    if edge_assign is None:
        decoder = decoders.JsonDecoder()
        write_lines(src, json_lines(g))
    else:
        decoder = spread_decoder()
        write_lines(src, spread_lines(g))
    d = QueueDispatcher(out, partitions, part, decoder, use_threads=True, watermark=g.watermark, **skip)
    MultiWorkersConverter(graph_path=src, partition_count=partitions, output_dir=out, decoder=decoder, dispatcher=d, watermark=g.watermark, thread_count=2, **kw).convert()
    os.remove(src)
    return out


def even_assign(g, partitions):
    """Partition of each node so that no partition stays without one."""
    order = {n: i % partitions for i, n in enumerate(g.nodes)}
    return lambda i: order[i]


def scatter(out, top, parts):
    """Move every partition to a folder of its own; the description stays in another one."""
    os.makedirs(top)
    shutil.copy(os.path.join(out, "meta.json"), top)
    res = []
    for p in range(parts):
        d = os.path.join(top, "part%d" % p)
        os.makedirs(d)
        for f in os.listdir(out):
            stem = f.split(".")[0].split("_")
            # All files carry the partition number as the last but one item, except alias tables which end with it.
            if f.startswith("meta"):
                continue
            if int(stem[-1] if f.endswith(".alias") else stem[-2]) == p:
                shutil.copy(os.path.join(out, f), d)
        res.append((d, p))
    return top, res
