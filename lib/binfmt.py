"""Independent reader of the converted files of one partition."""
import json
import os
import struct

import numpy as np


class FormatError(Exception):
    pass


def need(cond, text, *args):
    if not cond:
        raise FormatError(text % args)


def blob(folder, name):
    with open(os.path.join(folder, name), "rb") as f:
        return f.read()


def records(data, fmt, name):
    size = struct.calcsize(fmt)
    need(len(data) % size == 0, "%s: %d bytes are not a multiple of %d", name, len(data), size)
    return [struct.unpack_from(fmt, data, i) for i in range(0, len(data), size)]


class Partition:
    """nodes: (id, type, [feature bytes]); edges: (src, dst, type, weight, [feature bytes], created, removed)."""

    def __init__(self, folder, p):
        self.folder, self.p = folder, p
        nm = records(blob(folder, "node_%d_0.map" % p), "=QQi", "node map")
        ni = [x[0] for x in records(blob(folder, "node_%d_0.index" % p), "=Q", "node index")]
        nfi = [x[0] for x in records(blob(folder, "node_features_%d_0.index" % p), "=Q", "node feature index")]
        nfd = blob(folder, "node_features_%d_0.data" % p)
        nbi = [x[0] for x in records(blob(folder, "neighbors_%d_0.index" % p), "=Q", "neighbor index")]
        ei = records(blob(folder, "edge_%d_0.index" % p), "=QQif", "edge index")
        efi = [x[0] for x in records(blob(folder, "edge_features_%d_0.index" % p), "=Q", "edge feature index")]
        efd = blob(folder, "edge_features_%d_0.data" % p)
        ts = os.path.join(folder, "edge_%d_0.timestamp" % p)
        self.watermark = None
        times = None
        if os.path.exists(ts):
            data = blob(folder, "edge_%d_0.timestamp" % p)
            self.watermark = struct.unpack_from("=q", data)[0]
            times = records(data[8:], "=qq", "timestamps")
        need(len(ni) == len(nm) + 1, "node index has %d entries for %d nodes", len(ni), len(nm))
        need(len(nbi) == len(nm) + 1, "neighbor index has %d entries for %d nodes", len(nbi), len(nm))
        need(len(ei) >= 1 and nbi[-1] == len(ei) - 1, "neighbor index ends at %s, %d edges", nbi[-1:], len(ei) - 1)
        need(times is None or len(times) == len(ei) - 1, "%d time pairs for %d edges", len(times or []), len(ei) - 1)
        self.nodes, self.edges = [], []
        for k, (node, offset, tp) in enumerate(nm):
            need(offset == k, "node %d has internal id %d, expected %d", node, offset, k)
            feats = self.cut(nfi, nfd, ni[k], ni[k + 1], "node %d" % node)
            self.nodes.append((node, tp, feats))
            need(nbi[k] <= nbi[k + 1], "neighbor index decreases at node %d", node)
            last = None
            for e in range(nbi[k], nbi[k + 1]):
                dst, off, etp, w = ei[e]
                need(last is None or etp >= last, "edge types of node %d are not sorted", node)
                last = etp
                f = self.cut(efi, efd, off, ei[e + 1][1], "edge %d-%d" % (node, dst))
                self.edges.append((node, dst, etp, w, f) + (times[e] if times else (None, None)))

    @staticmethod
    def cut(index, data, a, b, what):
        need(a <= b < len(index), "%s: feature range %d..%d outside the index of %d", what, a, b, len(index))
        res = []
        for i in range(a, b):
            need(index[i] <= index[i + 1] <= len(data), "%s: feature bytes %d..%d outside %d bytes", what, index[i], index[i + 1], len(data))
            res.append(data[index[i] : index[i + 1]])
        return res

    def alias(self, kind, tp):
        """[(element, alias element, probability)] or None without a table."""
        name = "%s_%d_%d.alias" % (kind, tp, self.p)
        if not os.path.exists(os.path.join(self.folder, name)):
            return None
        if kind == "node":
            return [(a, b, q) for a, b, q in records(blob(self.folder, name), "=qqf", name)]
        return [((a, b), (c, d), q) for a, b, c, d, q in records(blob(self.folder, name), "=qqqqf", name)]


def partitions(folder):
    """Numbers of the partitions that have files."""
    res = []
    for f in os.listdir(folder):
        if f.startswith("node_") and f.endswith("_0.map"):
            res.append(int(f[len("node_") : -len("_0.map")]))
    return sorted(res)


def meta(folder, name="meta.json"):
    with open(os.path.join(folder, name)) as f:
        return json.load(f)


def feature_content(raw, f):
    """Compare stored bytes with the expected feature; None when equal, else a description."""
    if f is None:
        return None if raw == b"" else "expected nothing, found %s" % raw[:40].hex()
    if f.kind in ("dense", "string"):
        want = f.bytes_at()
        return None if raw == want else "found %s expected %s" % (raw[:40].hex(), want[:40].hex())
    if f.kind == "sparse":
        coords = np.array(f.coords, dtype=np.int64)
        vals = np.array(f.values, dtype=f.dtype)
        dim = coords.shape[-1] if coords.ndim > 1 else 1
        if len(raw) != 8 + coords.size * 8 + vals.nbytes:
            return "sparse record of %d bytes, expected %d" % (len(raw), 8 + coords.size * 8 + vals.nbytes)
        n, d = struct.unpack_from("=II", raw)
        c = np.frombuffer(raw, dtype=np.int64, count=coords.size, offset=8)
        v = raw[8 + coords.size * 8 :]
        if (n, d) != (coords.size, dim):
            return "sparse header %s expected %s" % ((n, d), (coords.size, dim))
        if c.tolist() != coords.reshape(-1).tolist():
            return "coordinates %s expected %s" % (c.tolist()[:10], coords.reshape(-1).tolist()[:10])
        return None if v == vals.tobytes() else "sparse values %s expected %s" % (v[:40].hex(), vals.tobytes()[:40].hex())
    if f.kind == "versions":
        want = sorted(f.versions, key=lambda x: x[0])
        if len(raw) < 4:
            return "temporal record of %d bytes" % len(raw)
        n = struct.unpack_from("=i", raw)[0]
        if n != len(want):
            return "%d versions, expected %d" % (n, len(want))
        m = struct.unpack_from("=%dq" % (2 * n + 1), raw, 4)
        for i, (c, v) in enumerate(want):
            got = raw[m[n + i] : m[n + i + 1]]
            exp = np.array(v, dtype=f.dtype).tobytes()
            if m[i] != c or got != exp:
                return "version %d is (%d, %s), expected (%d, %s)" % (i, m[i], got[:20].hex(), c, exp[:20].hex())
        return None
    raise ValueError(f.kind)


def features_equal(raw, feats):
    """raw: stored list; feats: {id: Feat}. Missing trailing features may be absent or empty."""
    n = max(len(raw), max(feats, default=-1) + 1)
    for i in range(n):
        have = raw[i] if i < len(raw) else b""
        d = feature_content(have, feats.get(i))
        if d:
            return "feature %d: %s" % (i, d)
    return None
