"""Features of one node whose records lie in several partitions or on several servers."""
import json
import os
import struct

import gmodel
import native
import numpy as np

LEVEL = "exploration"
RULE = "one case is one feature query on a graph whose nodes have records in several partitions; it is nontrivial when some asked feature is stored, and distinct by graph, load form and arguments"
ASSUMPTIONS = [
    "every feature without versions is stored in one record of its node, and no two records hold versions of one feature with the same time",
    "all versions of a sparse feature have the same element type and number of coordinates",
    "servers run in the process of the client over a stand-in transport which reorders replies",
]
BUILDS = ["rel", "asan"]
OPS = ["%s %s %s" % (a, b, c) for a in ("dense", "string", "sparse") for b in ("plain", "versions") for c in ("local", "remote")]
NEED = {op: 60 for op in OPS}
NEED.update({"feature of a later record": 100, "newer version on another server": 50, "replies out of order": 20, "newer version in another partition": 100, "empty newest version": 20})


def plan(tier, seed):
    big = tier == "thorough"
    jobs = [{"name": "g%d" % i, "config": "rel", "graphs": 200 if big else 50, "rounds": 8 if big else 4, "timeout": 800} for i in range(12 if big else 6)]
    jobs += [{"name": "a%d" % i, "config": "asan", "graphs": 60 if big else 20, "rounds": 4, "timeout": 800} for i in range(2)]
    return jobs


class Model:
    """node id -> {feature id: (kind, [(time or None, partition, payload)])}; payload is bytes or (coordinates, values)."""

    def __init__(self, r, parts, versions):
        self.parts, self.versions = parts, versions
        self.base = r.choice([0, 0, 2**31 - 20, 2**40]) if versions else 0
        n = r.randint(1, 4)
        self.fids = sorted(r.sample(range(n + 2), n))
        self.layout = {}
        for f in self.fids:
            kind = r.choice(["dense", "string", "sparse"])
            self.layout[f] = (kind, r.choice(gmodel.NUMERIC), r.randint(1, 3), r.choice([1, 2, 5]))
        self.nodes = {}
        self.records = {}
        ids = gmodel.rand_ids(r, r.choice([1, 3, 10, 30]))
        for k, i in enumerate(ids):
            where = sorted(r.sample(range(parts), r.randint(1, parts)))
            if k < parts:
                # No partition stays empty.
                where = sorted(set(where) | {k})
            if len(ids) < parts and k == 0:
                where = list(range(parts))
            self.records[i] = where
            feats = {}
            for f in self.fids:
                if r.random() < 0.2:
                    continue
                if versions:
                    times = r.sample(range(0, 30), r.randint(1, 6))
                    feats[f] = [(self.base + t, r.choice(where), self.payload(r, f)) for t in sorted(times)]
                else:
                    feats[f] = [(None, r.choice(where), self.payload(r, f))]
            self.nodes[i] = feats

    def payload(self, r, f):
        kind, dtype, dim, size = self.layout[f]
        if kind == "dense":
            return np.array(gmodel.rand_values(r, dtype, size), dtype=dtype).tobytes()
        if kind == "string":
            n = r.choice([0, 1, 3, 40]) if self.versions else r.choice([1, 3, 40])
            return bytes(r.randint(1, 127) for _ in range(n))
        n = r.randint(2, 5)
        coords = [[r.randint(0, 99) for _ in range(dim)] for _ in range(n)]
        return coords, gmodel.rand_values(r, dtype, n)

    def raw(self, f, payload):
        """Stored bytes of one version."""
        kind, dtype, dim, _ = self.layout[f]
        if kind != "sparse":
            return payload
        coords, values = payload
        return struct.pack("=II", len(coords) * dim, dim) + np.array(coords, dtype=np.int64).tobytes() + np.array(values, dtype=dtype).tobytes()

    def lines(self, r):
        for i, where in self.records.items():
            for p in where:
                stored = {}
                for f, vs in self.nodes[i].items():
                    mine = [(t, x) for t, q, x in vs if q == p]
                    if mine:
                        stored[str(f)] = [(t, self.raw(f, x).hex()) for t, x in mine]
                yield json.dumps({"node_id": i, "node_type": 0, "node_weight": 1, "edge": [], "part": p, "stored": stored})

    def at(self, node, f, ts):
        """The payload asked for, the partition it lies in and the partitions with older versions."""
        vs = [v for v in self.nodes.get(node, {}).get(f, []) if ts is None or v[0] <= ts]
        if not vs:
            return None, None, []
        best = max(vs, key=lambda v: v[0] or 0)
        return best[2], best[1], [q for t, q, _ in vs if q != best[1]]


def decoder():
    from deepgnn.graph_engine.snark.decoders import Decoder

    class Records(Decoder):
        def decode(self, line):
            d = json.loads(line)
            feats = [None] * (max(map(int, d["stored"]), default=-1) + 1)
            for f, vs in d["stored"].items():
                blobs = [bytes.fromhex(x) for _, x in vs]
                if vs[0][0] is None:
                    raw = blobs[0]
                else:
                    n = len(vs)
                    head = 4 + 8 * (2 * n + 1)
                    offs = [head + sum(map(len, blobs[:k])) for k in range(n + 1)]
                    raw = struct.pack("=I%dq" % (2 * n + 1), n, *[t for t, _ in vs], *offs) + b"".join(blobs)
                feats[int(f)] = np.frombuffer(raw, dtype=np.uint8)
            yield d["node_id"], -1, d["node_type"], d["node_weight"], 0, -1, feats

    return Records()


def convert(m, r, out):
    from deepgnn.graph_engine.snark.convert import MultiWorkersConverter
    from deepgnn.graph_engine.snark.dispatcher import QueueDispatcher

    os.makedirs(out)
    src = out + ".input"
    gmodel.write_lines(src, m.lines(r))
    mark = m.base + 40 if m.versions else None
    dec = decoder()
    d = QueueDispatcher(out, m.parts, lambda line: json.loads(line)["part"], dec, use_threads=True, watermark=mark)
    MultiWorkersConverter(graph_path=src, partition_count=m.parts, output_dir=out, decoder=dec, dispatcher=d, watermark=mark, thread_count=2).convert()
    os.remove(src)


def query(ctx, r, m, graph, label, side, owner):
    ids = list(m.nodes)
    keys = [r.choice(ids) if r.random() < 0.9 else max(ids) + 7 for _ in range(r.choice([1, 2, 5, 20]))]
    ts = [m.base + r.randint(-1 if m.base else 0, 35) for _ in keys] if m.versions else None
    for kind in ("dense", "string", "sparse"):
        mine = [f for f in m.fids if m.layout[f][0] == kind or (kind == "string" and m.layout[f][0] == "dense")]
        if not mine:
            continue
        r.shuffle(mine)
        mine = mine[: r.randint(1, len(mine))]
        op = "%s %s %s" % (kind, "versions" if m.versions else "plain", side)
        case = {"op": op, "graph": label, "nodes": keys[:20], "features": mine, "timestamps": ts, "records": {str(k): m.records.get(k) for k in keys[:20]}}
        kw = {"timestamps": np.array(ts, dtype=np.int64)} if ts else {}
        answers = [[m.at(k, f, ts[i] if ts else None) for f in mine] for i, k in enumerate(keys)]
        some = False
        for row, k in zip(answers, keys):
            for x, part, older in row:
                if x is None:
                    continue
                some = True
                if part != m.records[k][0]:
                    ctx.count("feature of a later record")
                if older:
                    ctx.count("newer version in another partition")
                    if any(owner.get(q) != owner.get(part) for q in older):
                        ctx.count("newer version on another server")
                if x == b"":
                    ctx.count("empty newest version")
        with ctx.trial():
            nodes = np.array(keys, dtype=np.int64)
            if kind == "dense":
                dtypes = {m.layout[f][1] for f in mine}
                dtype = np.dtype(dtypes.pop() if len(dtypes) == 1 else "uint8")
                req = [[f, m.layout[f][3] * np.dtype(m.layout[f][1]).itemsize // dtype.itemsize] for f in mine]
                got = ctx.call(op, graph.node_features, nodes, np.array(req, dtype=np.int32), dtype, case=case, **kw)
                for i, row in enumerate(answers):
                    want = b"".join((x or b"").ljust(s * dtype.itemsize, b"\0") for (x, _, _), (_, s) in zip(row, req))
                    ctx.expect(got[i].tobytes() == want, op + ": wrong value", "node %s time %s features %s: got %s expected %s" % (keys[i], ts and ts[i], req, got[i].tobytes().hex()[:80], want.hex()[:80]), case)
            elif kind == "string":
                values, dims = ctx.call(op, graph.node_string_features, nodes, np.array(mine, dtype=np.int32), np.uint8, case=case, **kw)
                want_dims = [[len(x or b"") for x, _, _ in row] for row in answers]
                ctx.expect(dims.tolist() == want_dims, op + ": wrong length", "features %s: got %s expected %s" % (mine, dims.tolist()[:8], want_dims[:8]), case)
                want = b"".join(x or b"" for row in answers for x, _, _ in row)
                ctx.expect(np.asarray(values).tobytes() == want, op + ": wrong value", "features %s: got %s expected %s" % (mine, np.asarray(values).tobytes()[:60], want[:60]), case)
            else:
                idx, vals, dims = ctx.call(op, graph.node_sparse_features, nodes, np.array(mine, dtype=np.int32), np.uint8, case=case, **kw)
                for j, f in enumerate(mine):
                    rows, data = [], b""
                    for i, row in enumerate(answers):
                        if row[j][0] is not None:
                            coords, values = row[j][0]
                            rows += [[i] + c for c in coords]
                            data += np.array(values, dtype=m.layout[f][1]).tobytes()
                    got = idx[j].tolist() if idx[j].size else []
                    ctx.expect(got == rows, op + ": wrong coordinates", "feature %d: got %s expected %s" % (f, got[:8], rows[:8]), case)
                    ctx.expect(np.asarray(vals[j]).tobytes() == data, op + ": wrong value", "feature %d: got %s expected %s" % (f, np.asarray(vals[j]).tobytes().hex()[:60], data.hex()[:60]), case)
                    if rows:
                        ctx.expect(int(dims[j]) == m.layout[f][2], op + ": wrong dimension", "feature %d: got %s expected %d" % (f, dims[j], m.layout[f][2]), case)
        ctx.count(op)
        ctx.case((label, op, tuple(keys), tuple(mine), tuple(ts or ())), some, case)


def run(job, ctx):
    from deepgnn.graph_engine.snark.client import PartitionStorageType

    r = ctx.rng(job["name"])
    for gi in range(job["graphs"]):
        parts = r.choice([2, 2, 3, 5])
        m = Model(r, parts, gi % 2 == 1)
        out = os.path.join(ctx.scratch, "g%d" % gi)
        ctx.at({"op": "convert", "nodes": len(m.nodes), "parts": parts})
        convert(m, r, out)
        label = "%s-g%d" % (job["name"], gi)
        order = list(range(parts))
        r.shuffle(order)
        storage = r.choice([PartitionStorageType.memory, PartitionStorageType.disk])
        with ctx.trial():
            mg = ctx.call("load", native.memory_graph, out, order, storage_type=storage, case={"graph": label})
            for _ in range(job["rounds"]):
                query(ctx, r, m, mg, "%s local %s %s" % (label, order, storage.name), "local", {})
            mg.reset()
        servers = r.randint(2, parts)
        layout = [order[k::servers] for k in range(servers)]
        owner = {p: k for k, ps in enumerate(layout) for p in ps}
        native.clear()
        with ctx.trial():
            with native.cluster(out, layout, storage_type=storage) as c:
                graph = ctx.call("connect", c.client, case={"graph": label})
                for k in range(job["rounds"]):
                    # Replies arrive in an order of their own in every round.
                    slow = r.randrange(servers)
                    native.clear()
                    if k % 2:
                        native.address_delay(c.addresses[slow], 3000)
                    else:
                        native.random_delay(2000, r.getrandbits(30))
                    query(ctx, r, m, graph, "%s servers %s slow %s" % (label, layout, slow if k % 2 else "random"), "remote", owner)
                    ctx.count("replies out of order", native.dump()["inversions"])
                graph.reset()
        native.clear()
