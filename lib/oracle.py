"""Random queries against a loaded graph, each compared with the reference graph."""
import hashlib

import numpy as np

import gmodel


def prepare(r, g):
    """Make sparse features of one id comparable: same type and same number of coordinates."""
    for items in (list(g.nodes.values()), g.edges):
        layout = {}
        for it in items:
            for fid, f in it.feats.items():
                if f.kind != "sparse":
                    continue
                flat = not isinstance(f.coords[0], (list, tuple))
                dim = 1 if flat else len(f.coords[0])
                if fid not in layout:
                    layout[fid] = (f.dtype, dim)
                dtype, d = layout[fid]
                if dtype != f.dtype:
                    f.dtype = dtype
                    f.values = gmodel.rand_values(r, dtype, len(f.values))
                if d != dim:
                    f.coords = [[r.randint(0, 60) for _ in range(d)] for _ in f.values]
    return g


def trim(r, args, usual):
    """Leave out trailing arguments that have their documented default values, as most callers do."""
    args = list(args)
    for value in reversed(usual):
        same = args[-1] is value or isinstance(value, (str, int, float)) and type(args[-1]) is type(value) and args[-1] == value
        if not same or r.random() < 0.3:
            break
        args.pop()
    return args


def unknown_ids(g):
    top = max(g.nodes, default=0)
    known = set(g.nodes) | {e.src for e in g.edges}
    return [u for u in [top + 100, top + 101, 2**62 + 11, -1, 2**63 - 1] if u not in known]


class Probe:
    def __init__(self, ctx, g, graph, r, label, strict=True, case=None, node_feats=True, times=None, forms=True):
        self.forms = forms
        self.ctx, self.g, self.graph, self.r, self.label, self.strict = ctx, g, graph, r, label, strict
        self.extra = case or {}
        self.ids = list(g.nodes) + sorted({e.src for e in g.edges} - set(g.nodes))
        self.unknown = unknown_ids(g)
        self.kinds = {"node": self._kinds(g.nodes.values()), "edge": self._kinds(g.edges)}
        self.n = 0
        self.digest = hashlib.sha256()
        self.times = times if times is not None else self._times()

    # --- generation of arguments

    @staticmethod
    def _kinds(items):
        res = {}
        for it in items:
            for fid, f in it.feats.items():
                res.setdefault(fid, set()).add(f.kind)
        return res

    def _times(self):
        if not self.g.temporal:
            return []
        t = {self.g.watermark, self.g.watermark + 5, 0}
        for e in self.g.edges:
            t |= {e.created, e.created - 1, e.created + 1}
            if e.removed != -1:
                t |= {e.removed, e.removed - 1, e.removed + 1}
        for it in list(self.g.nodes.values()) + self.g.edges:
            for f in it.feats.values():
                for c, _ in f.versions or []:
                    t |= {c, c - 1, c + 1}
        return sorted(x for x in t if x >= 0)

    def nodes(self, n=None):
        r = self.r
        n = r.choice([1, 2, 5, 20, 50]) if n is None else n
        res = [r.choice(self.ids) if self.ids and r.random() < 0.85 else r.choice(self.unknown) for _ in range(n)]
        if r.random() < 0.3 and res:
            res += res[: r.randint(1, len(res))]
        return res

    def types(self):
        r, known = self.r, self.g.edge_types()
        if r.random() < 0.2 and known:
            return known
        pool = list(range(0, (max(known) if known else 0) + 3)) + [1000]
        return [r.choice(pool) for _ in range(r.randint(1, 5))]

    def edges(self, n=None):
        """(src, dst, type) triples, some of which do not exist."""
        r, g = self.r, self.g
        n = r.choice([1, 2, 5, 20, 50]) if n is None else n
        res = []
        for _ in range(n):
            c = r.random()
            if g.edges and c < 0.8:
                e = r.choice(g.edges)
                res.append((e.src, e.dst, e.type))
            elif g.edges and c < 0.87:
                e = r.choice(g.edges)
                res.append((e.src, e.dst, e.type + r.choice([1, 7])))
            elif g.edges and c < 0.94:
                e = r.choice(g.edges)
                res.append((e.src, r.choice(self.unknown), e.type))
            else:
                res.append((r.choice(self.unknown), r.choice(self.ids or [0]), 0))
        return res

    def stamps(self, n):
        if self.r.random() < 0.3:
            return [self.r.choice(self.times)] * n
        return [self.r.choice(self.times) for _ in range(n)]

    def feature_of(self, kind, key, fid):
        if kind == "node":
            n = self.g.nodes.get(key)
            return n.feats.get(fid) if n else None
        es = self.g.find(*key)
        return es[0].feats.get(fid) if es else None

    def pick(self, kind, allowed):
        """Feature ids of which all values are of the allowed kinds, with some unknown ones."""
        ok = [f for f, k in self.kinds[kind].items() if k <= set(allowed)]
        gaps = [f for f in range(max(self.kinds[kind], default=0)) if f not in self.kinds[kind]]
        top = max(self.kinds[kind], default=0)
        pool = ok * 4 + gaps + [top + 1, top + 9]
        return [self.r.choice(pool) for _ in range(self.r.randint(1, 4))]

    # --- bookkeeping

    def begin(self, op, case):
        self.n += 1
        self.case = {"graph": self.label, "call": op, **case, **self.extra}
        self.op = op
        self.ctx.at({"op": op, "case": self.case})

    def call(self, fn, *a, **kw):
        return self.ctx.call(self.op, fn, *a, case=self.case, **kw)

    def bad(self, mech, what):
        self.ctx.fail("%s: %s" % (self.op, mech), what, self.case)

    def done(self, nontrivial, **sample):
        self.ctx.count(self.op)
        self.ctx.case((self.ctx.name, self.label, self.op, self.n), nontrivial, {"call": self.op, "graph": self.label, **sample})

    # --- queries

    def kw(self, ts):
        return {} if ts is None else {"timestamps": self.listed(ts)}

    def listed(self, values):
        """Nodes or times in one of the accepted forms."""
        if self.forms and self.r.random() < 0.2:
            return list(values)
        return np.array(values, dtype=np.int64)

    def typed(self, types):
        """Edge types in one of the accepted forms."""
        if self.forms and len(types) == 1 and self.r.random() < 0.5:
            return types[0]
        return types

    def kinds_of(self, arrays, dtypes):
        got = [np.asarray(x).dtype for x in arrays]
        if got != [np.dtype(t) for t in dtypes]:
            self.bad("wrong types of arrays", "%s instead of %s" % (got, dtypes))

    def usual(self, given):
        """Values for what is missing, and what to pass for them: nothing, when they are the documented defaults."""
        if self.r.random() < 0.4:
            usual = {"default_node": -1, "default_weight": 0.0, "default_edge_type": -1, "default_type": -1, "default_timestamp": -1}
            return [usual[k] for k in given], {}
        return list(given.values()), given

    def want_neighbors(self, nodes, types, ts):
        return [self.g.neighbors(n, types, None if ts is None else ts[i]) for i, n in enumerate(nodes)]

    def neighbors(self, temporal=False, n=None):
        nodes, types = self.nodes(n), self.types()
        ts = self.stamps(len(nodes)) if temporal else None
        created = temporal and self.r.random() < 0.5
        self.begin("neighbors", {"nodes": nodes, "types": types, "timestamps": ts})
        kw = self.kw(ts)
        if created:
            kw["return_edge_created_ts"] = True
        res = self.call(self.graph.neighbors, self.listed(nodes), self.typed(types), **kw)
        dst, w, tp = res[0], res[1], res[2]
        counts = res[3]
        times = res[4] if created else None
        self.kinds_of(res[:3], [np.int64, np.float32, np.int32])
        want = self.want_neighbors(nodes, types, ts)
        if [int(c) for c in counts] != [len(x) for x in want]:
            i = next((i for i in range(len(nodes)) if int(counts[i]) != len(want[i])), 0)
            self.bad("wrong number of neighbors", "node %d types %s time %s: got %d expected %d" % (nodes[i], types, ts and ts[i], counts[i], len(want[i])))
        total = sum(map(len, want))
        if not len(dst) == len(w) == len(tp) == total or (created and len(times) != total):
            self.bad("result length differs from the counts", "%d %d %d, counts sum to %d" % (len(dst), len(w), len(tp), total))
        pos = 0
        for i, es in enumerate(want):
            k = len(es)
            cols = [dst[pos : pos + k].tolist(), w[pos : pos + k].tolist(), tp[pos : pos + k].tolist()]
            exp = [(e.dst, e.weight, e.type) for e in es]
            if created:
                cols.append(times[pos : pos + k].tolist())
                exp = [(e.dst, e.weight, e.type, e.created) for e in es]
            got = sorted(zip(*cols))
            if got != sorted(exp):
                self.bad("wrong neighbors", "node %d types %s time %s: got %s expected %s" % (nodes[i], types, ts and ts[i], got[:6], sorted(exp)[:6]))
            pos += k
        self.done(total > 0, edges=total)

    def counts(self, temporal=False, n=None):
        nodes, types = self.nodes(n), self.types()
        ts = self.stamps(len(nodes)) if temporal else None
        self.begin("neighbor_counts", {"nodes": nodes, "types": types, "timestamps": ts})
        got = self.call(self.graph.neighbor_counts, self.listed(nodes), self.typed(types), **self.kw(ts))
        want = [len(x) for x in self.want_neighbors(nodes, types, ts)]
        if [int(c) for c in got] != want:
            i = next((i for i in range(len(nodes)) if int(got[i]) != want[i]), 0)
            self.bad("wrong count", "node %d types %s time %s: got %s expected %s" % (nodes[i], types, ts and ts[i], got[i], want[i]))
        self.done(any(want))

    def node_types(self, n=None):
        nodes = self.nodes(n)
        default = self.r.choice([-1, -7, 55])
        self.begin("node_types", {"nodes": nodes})
        got = self.call(self.graph.node_types, self.listed(nodes), default)
        want = [self.g.nodes[x].type if x in self.g.nodes else default for x in nodes]
        if [int(x) for x in got] != want:
            i = next(i for i in range(len(nodes)) if int(got[i]) != want[i])
            self.bad("wrong type", "node %d: got %s expected %s" % (nodes[i], got[i], want[i]))
        self.done(True)

    def lastn(self, n=None):
        nodes, types = self.nodes(n), self.types()
        ts = self.stamps(len(nodes))
        count = self.r.choice([1, 2, 5, 10, 30])
        (dn, dw, dt, dts), extra = self.usual({"default_node": -5, "default_weight": -1.5, "default_edge_type": -9, "default_timestamp": -77})
        if count != 10 or self.r.random() < 0.3:
            extra = dict(extra, count=count)
        created = self.r.random() < 0.6
        self.begin("lastn_neighbors", {"nodes": nodes, "types": types, "timestamps": ts, "count": count})
        res = self.call(self.graph.lastn_neighbors, self.listed(nodes), self.typed(types), self.listed(ts), **extra, **({"return_edge_created_ts": True} if created else {}))
        self.kinds_of(res[:3], [np.int64, np.float32, np.int32])
        got_n, got_w, got_t = [np.asarray(x).reshape(len(nodes), count) for x in res[:3]]
        got_c = np.asarray(res[3]).reshape(len(nodes), count) if created else None
        want = self.want_neighbors(nodes, types, ts)
        for i, es in enumerate(want):
            k = min(count, len(es))
            rows = list(zip(got_n[i].tolist(), got_w[i].tolist(), got_t[i].tolist()))
            if created:
                rows = [a + (c,) for a, c in zip(rows, got_c[i].tolist())]
            filler = (dn, dw, dt) + ((dts,) if created else ())
            real = [x for x in rows if x != filler]
            if len(real) != k:
                self.bad("wrong number of neighbors", "node %d time %d types %s count %d: %s, alive %s" % (nodes[i], ts[i], types, count, rows[:6], sorted([(e.dst, e.weight, e.type, e.created) for e in es], key=lambda x: -x[3])[:6]))
            pool = [(e.dst, e.weight, e.type) + ((e.created,) if created else ()) for e in es]
            left = list(pool)
            for x in real:
                if x not in left:
                    self.bad("not an edge alive at the time", "node %d time %d types %s: %s, alive %s" % (nodes[i], ts[i], types, x, pool[:8]))
                left.remove(x)
            if created and k:
                top = sorted((e.created for e in es), reverse=True)[:k]
                if sorted((x[3] for x in real), reverse=True) != top:
                    self.bad("not the most recent edges", "node %d time %d: created %s expected %s" % (nodes[i], ts[i], sorted(x[3] for x in real)[::-1], top))
            elif k < len(es):
                # Without times, the set must still be a choice of the most recent ones.
                top = sorted((e.created for e in es), reverse=True)[k - 1]
                must = [(e.dst, e.weight, e.type) for e in es if e.created > top]
                rest = list(real)
                for x in must:
                    if x not in rest:
                        self.bad("not the most recent edges", "node %d time %d: %s lacks %s" % (nodes[i], ts[i], real[:8], x))
                    rest.remove(x)
        self.done(any(want))

    def sample(self, how, temporal=False, n=None, repeat=True):
        """how: weighted, uniform or distinct (uniform without replacement)."""
        r = self.r
        nodes, types = self.nodes(n), self.types()
        ts = self.stamps(len(nodes)) if temporal else None
        count = r.choice([1, 2, 5, 10, 30])
        created = self.g.temporal and r.random() < 0.5
        seed = r.choice([0, 1, r.randint(0, 2**62), -r.randint(1, 2**62)])
        if how == "weighted":
            (dn, dw, dt), extra = self.usual({"default_node": -5, "default_weight": -1.5, "default_edge_type": -9})
        else:
            (dn, dt), extra = self.usual({"default_node": -5, "default_type": -9})
        if count != 10 or r.random() < 0.3:
            extra = dict(extra, count=count)
        self.begin("sample_neighbors %s" % how, {"nodes": nodes, "types": types, "timestamps": ts, "count": count, "seed": seed})
        kw = self.kw(ts)
        if created:
            kw["return_edge_created_ts"] = True
        arr, given = self.listed(nodes), self.typed(types)

        def draw():
            if how == "weighted":
                return self.call(self.graph.weighted_sample_neighbors, arr, given, seed=seed, **extra, **kw)
            return self.call(self.graph.uniform_sample_neighbors, how == "distinct", arr, given, seed=seed, **extra, **kw)

        res = draw()
        if any(x.shape != (len(nodes), count) for x in res):
            self.bad("wrong shape of the result", "%s" % [x.shape for x in res])
        self.kinds_of(res[:3] if how == "weighted" else res[:2], [np.int64, np.float32, np.int32] if how == "weighted" else [np.int64, np.int32])
        for x in res:
            self.digest.update(x.tobytes())
        if repeat:
            again = draw()
            if any(a.tobytes() != b.tobytes() for a, b in zip(res, again)):
                self.bad("same seed, different result", "%s and %s" % ([x.tolist()[:2] for x in res], [x.tolist()[:2] for x in again]))
        want = self.want_neighbors(nodes, types, ts)
        filler = (dn, dw, dt) if how == "weighted" else (dn, dt)
        cols = [x.tolist() for x in res]
        for i, es in enumerate(want):
            if how == "weighted":
                es = [e for e in es if e.weight > 0]
            rows = list(zip(*[c[i] for c in cols]))
            pool = [((e.dst, e.weight, e.type) if how == "weighted" else (e.dst, e.type)) + ((e.created,) if created else ()) for e in es]
            where = "node %d types %s time %s count %d" % (nodes[i], types, ts and ts[i], count)
            is_filler = [x[: len(filler)] == filler for x in rows]
            need = 0 if not pool else min(count, len(pool)) if how == "distinct" else count
            if sum(is_filler) != count - need:
                self.bad("defaults in the wrong places", "%s: %s, eligible %s" % (where, rows[:8], pool[:8]))
            if created and any(f and x[-1] != -1 for f, x in zip(is_filler, rows)):
                self.bad("wrong time of a default", "%s: %s" % (where, rows[:8]))
            real = [x for f, x in zip(is_filler, rows) if not f]
            left = list(pool)
            if created and ts is None and all(x[-1] == -1 for x in real):
                # Without query times the creation time may be left out.
                left = [x[:-1] + (-1,) for x in pool]
            for x in real:
                if x not in left:
                    self.bad("repeated edge" if x in pool else "not an eligible edge", "%s: %s, eligible %s" % (where, x, pool[:8]))
                if how == "distinct":
                    left.remove(x)
        self.done(any(want), count=count)

    def _keys(self, kind, n):
        if kind == "node":
            keys = self.nodes(n)
            return keys, (self.listed(keys),)
        keys = self.edges(n)
        return keys, tuple(self.listed([k[i] for k in keys]) for i in range(3))

    def dense(self, kind, temporal=False, n=None):
        keys, args = self._keys(kind, n)
        ts = self.stamps(len(keys)) if temporal else None
        fids = self.pick(kind, ("versions",) if temporal else ("dense", "string"))
        dtype = self.r.choice(gmodel.NUMERIC)
        item = np.dtype(dtype).itemsize
        req = [[f, self.r.choice([1, 1, 2, 3, 5, 20])] for f in fids]
        if self.r.random() < 0.1:
            req[0][1] = 0
        self.begin("%s_features" % kind, {"items": keys, "features": req, "dtype": dtype, "timestamps": ts})
        fn = self.graph.node_features if kind == "node" else self.graph.edge_features
        got = self.call(fn, *args, np.array(req, dtype=np.int32), np.dtype(dtype), **self.kw(ts))
        width = sum(s for _, s in req)
        if got.shape != (len(keys), width) or got.dtype != np.dtype(dtype):
            self.bad("wrong shape or type of the result", "%s %s" % (got.shape, got.dtype))
        any_data = False
        for i, key in enumerate(keys):
            want = b""
            for f, size in req:
                feat = self.feature_of(kind, key, f)
                raw = feat.bytes_at(ts[i] if temporal else None) if feat else b""
                any_data = any_data or bool(raw)
                want += raw[: size * item].ljust(size * item, b"\0")
            if got[i].tobytes() != want:
                pos = next(p for p in range(len(want)) if got[i].tobytes()[p] != want[p]) // item
                self.bad("wrong value", "item %s time %s position %d: got %s expected %s (request %s)" % (key, ts and ts[i], pos, got[i].tolist()[:12], np.frombuffer(want, dtype=dtype).tolist()[:12], req))
        self.done(any_data, features=req)

    def string(self, kind, temporal=False, n=None):
        keys, args = self._keys(kind, n)
        ts = self.stamps(len(keys)) if temporal else None
        fids = self.pick(kind, ("versions",) if temporal else ("dense", "string"))
        want, want_dims = b"", []
        for i, key in enumerate(keys):
            row = []
            for f in fids:
                feat = self.feature_of(kind, key, f)
                raw = feat.bytes_at(ts[i] if temporal else None) if feat else b""
                want += raw
                row.append(len(raw))
            want_dims.append(row)
        dtype = np.dtype(np.uint8)
        if self.forms and self.r.random() < 0.5:
            # Lengths are in values of the type asked for.
            dtype = np.dtype(self.r.choice([d for d in gmodel.NUMERIC if not any(x % np.dtype(d).itemsize for row in want_dims for x in row)]))
            want_dims = [[x // dtype.itemsize for x in row] for row in want_dims]
        self.begin("%s_string_features" % kind, {"items": keys, "features": fids, "timestamps": ts, "dtype": str(dtype)})
        fn = self.graph.node_string_features if kind == "node" else self.graph.edge_string_features
        values, dims = self.call(fn, *args, np.array(fids, dtype=np.int32), dtype if self.forms and self.r.random() < 0.5 else dtype.type, **self.kw(ts))
        if values.dtype != dtype:
            self.bad("wrong type of the result", "%s instead of %s" % (values.dtype, dtype))
        if dims.shape != (len(keys), len(fids)):
            self.bad("wrong shape of the dimensions", "%s for %d items and %d features" % (dims.shape, len(keys), len(fids)))
        if dims.tolist() != want_dims:
            i = next(i for i in range(len(keys)) if dims[i].tolist() != want_dims[i])
            self.bad("wrong length", "item %s features %s time %s: got %s expected %s" % (keys[i], fids, ts and ts[i], dims[i].tolist(), want_dims[i]))
        if np.asarray(values).tobytes() != want:
            self.bad("wrong value", "got %s expected %s" % (np.asarray(values).tobytes()[:80], want[:80]))
        self.done(bool(want), features=fids)

    def sparse(self, kind, n=None):
        keys, args = self._keys(kind, n)
        fids = self.pick(kind, ("sparse",))
        known = [f for k in keys for f in [self.feature_of(kind, k, fid) for fid in fids] if f]
        dtypes = {f.dtype for f in known}
        dtype = dtypes.pop() if len(dtypes) == 1 and self.r.random() < 0.7 else "uint8"
        self.begin("%s_sparse_features" % kind, {"items": keys, "features": fids, "dtype": dtype})
        fn = self.graph.node_sparse_features if kind == "node" else self.graph.edge_sparse_features
        idx, vals, dims = self.call(fn, *args, np.array(fids, dtype=np.int32), np.dtype(dtype))
        if not len(idx) == len(vals) == len(dims) == len(fids):
            self.bad("wrong number of features in the result", "%d %d %d for %d" % (len(idx), len(vals), len(dims), len(fids)))
        for j, fid in enumerate(fids):
            rows, data, dim = [], b"", 0
            for i, key in enumerate(keys):
                f = self.feature_of(kind, key, fid)
                if f is None:
                    continue
                coords = [c if isinstance(c, (list, tuple)) else [c] for c in f.coords]
                dim = len(coords[0])
                rows += [[i] + list(c) for c in coords]
                data += np.array(f.values, dtype=f.dtype).tobytes()
            if int(dims[j]) != dim:
                self.bad("wrong dimension", "feature %d: %s expected %d" % (fid, dims[j], dim))
            got_rows = [] if not rows and idx[j].size == 0 else idx[j].tolist()
            if vals[j].dtype != np.dtype(dtype) or idx[j].dtype != np.int64:
                self.bad("wrong type of the result", "feature %d: %s and %s" % (fid, vals[j].dtype, idx[j].dtype))
            got_data = np.asarray(vals[j]).tobytes()
            if got_rows != rows:
                self.bad("wrong coordinates", "feature %d: %s expected %s" % (fid, got_rows[:8], rows[:8]))
            if got_data != data:
                self.bad("wrong value", "feature %d: %s expected %s" % (fid, got_data[:60].hex(), data[:60].hex()))
        self.done(bool(known), features=fids)

    def any(self, n=None, features=True, times=True):
        """One query of a random kind that the graph can answer."""
        g = self.g
        ops = [self.neighbors, self.counts, lambda n=None: self.node_types(n)]
        if g.temporal and times:
            ops += [lambda n=None: self.neighbors(True, n), lambda n=None: self.counts(True, n), self.lastn]
            if features:
                ops += [lambda n=None, k=k, f=f: f(k, True, n) for k in ("node", "edge") for f in (self.dense, self.string)]
        elif features and not g.temporal:
            ops += [lambda n=None, k=k, f=f: f(k, n=n) for k in ("node", "edge") for f in (self.dense, self.string, self.sparse)]
        op = self.r.choice(ops)
        if op in (self.neighbors, self.counts):
            op(False, n)
        else:
            op(n=n)


class Recorder:
    """Passes calls on to a graph and keeps a digest of everything returned."""

    def __init__(self, graph):
        self.graph, self.log = graph, []

    def __getattr__(self, name):
        fn = getattr(self.graph, name)

        def call(*a, **kw):
            res = fn(*a, **kw)
            h = hashlib.sha256()
            feed(h, res)
            self.log.append((name, h.hexdigest()))
            return res

        return call


def feed(h, value):
    if isinstance(value, (tuple, list)):
        h.update(b"(%d" % len(value))
        for v in value:
            feed(h, v)
    else:
        a = np.asarray(value)
        h.update(("%s%s" % (a.dtype, a.shape)).encode())
        h.update(a.tobytes())
