"""Calls with degenerate and hostile arguments: memory errors by the address and undefined-behaviour sanitizers, unwritten answers by filled memory."""
import os
import sys

import numpy as np

import gmodel
import native
import oracle

LEVEL = "exploration"
RULE = "one case is one call; it is nontrivial when an argument is degenerate (empty, unknown, repeated, negative, extreme or of unequal length), and distinct by graph, how it is served and arguments"
ASSUMPTIONS = [
    "the address sanitizer sees reads and writes of this repository's code and of the copies it makes, at the granularity of allocations",
    "values that were never written are recognised by the pattern new memory is filled with",
    "arguments are of the documented types; teleport probabilities and thresholds of page rank are inside their ranges because the number of steps depends on them",
]
BUILDS = ["asan"]
NEED = {"calls": 6000, "empty": 300, "unknown nodes": 1000, "unknown types": 500, "refused": 100, "local": 10, "disk": 5, "remote": 10, "without edges": 3, "without features": 3, "sampled": 200, "size zero": 50, "other kind": 50, "without files": 3, "asked times": 300}

FILL = 0xA5
MARK = {8: 0xA5A5A5A5A5A5A5A5, 4: 0xA5A5A5A5}
EXTREME = [0, 1, -1, -2, 2**31 - 1, 2**31, -(2**31), 2**32, 2**63 - 1, -(2**63), 2**53 + 1]
ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:abort_on_error=0:detect_odr_violation=0:allocator_may_return_null=1:malloc_context_size=8:handle_segv=1:max_malloc_fill_size=1048576:malloc_fill_byte=%d" % FILL}


def plan(tier, seed):
    big = tier == "thorough"
    return [{"name": "hostile%d" % i, "config": "asan", "graphs": 320 if big else 60, "calls": 300 if big else 200, "env": ENV} for i in range(8 if big else 6)]


def fill_new_arrays():
    """Every array handed out without values is filled, so that elements nobody wrote can be told."""
    empty = np.empty

    def filled(*a, **kw):
        x = empty(*a, **kw)
        if x.dtype.kind in "iuf" and x.nbytes and x.flags.c_contiguous:
            x.reshape(-1).view(np.uint8)[:] = FILL
        return x

    np.empty = filled


LOST = []


def watch_callbacks():
    """Exceptions inside of callbacks from native code are dropped by the interpreter: the call looks successful."""
    before = sys.unraisablehook

    def hook(u):
        if "callback" in (u.err_msg or ""):
            LOST.append(repr(u.exc_value))
        else:
            before(u)

    sys.unraisablehook = hook


def unwritten(x):
    x = np.asarray(x)
    if x.dtype.kind not in "iuf" or x.itemsize not in MARK or x.size == 0:
        return 0
    bits = np.ascontiguousarray(x).reshape(-1).view("u%d" % x.itemsize)
    return int((bits == MARK[x.itemsize]).sum())


def arrays(x):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)):
        for i in x:
            yield from arrays(i)


def make_graph(r, kind):
    temporal = kind == "temporal" or (kind != "bare" and r.random() < 0.3)
    if kind == "single":
        g = gmodel.random_graph(r, nodes=1, ntypes=1, etypes=1, degree=r.choice([0, 2]), kinds=("versions",) if temporal else ("dense", "sparse", "string"), weights="exact", temporal=temporal)
    else:
        g = gmodel.random_graph(
            r, nodes=r.choice([3, 10, 30]), ntypes=r.choice([1, 3]), etypes=r.choice([1, 4]), degree=0 if kind == "no edges" else r.choice([1, 4, 9]),
            kinds=("versions",) if temporal else ("dense", "sparse", "string"), weights=r.choice(["exact", "exact0", "equal", "skewed"]), node_weights=r.choice(["exact", "exact0", "equal"]), temporal=temporal,
            features=0 if kind in ("no features", "bare") else r.choice([0.5, 0.9]), parallel=r.choice([0, 0.2]))
    if kind in ("no features", "bare"):
        for i in list(g.nodes.values()) + g.edges:
            i.feats, i.blanks = {}, {}
    if kind == "no edges":
        g.edges, g._out = [], None
    return g


class Hostile:
    """Calls with arguments that are at the limits of what the interface takes."""

    def __init__(self, ctx, r, g, graph, label, times, without_samplers):
        self.ctx, self.r, self.g, self.graph, self.label, self.times = ctx, r, g, graph, label, times
        self.known = list(g.nodes)
        self.keys = [e.key() for e in g.edges]
        self.samplers = []
        self.remote = label.endswith("remote")
        self.without_samplers = without_samplers

    def nodes(self):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 5, 12, 70])
        pool = [self.known, self.known + EXTREME, EXTREME, self.known[:1]][r.choice([0, 1, 1, 2, 3])]
        out = [r.choice(pool) for _ in range(n)]
        self.odd |= n == 0 or len(set(out)) < n or any(i not in self.g.nodes for i in out)
        self.ctx.count("empty", int(n == 0))
        self.ctx.count("unknown nodes", int(any(i not in self.g.nodes for i in out)))
        return np.array(out, dtype=np.int64) if r.random() < 0.7 else out

    def edges(self):
        r = self.r
        n = r.choice([0, 1, 2, 4, 20])
        out = []
        for _ in range(n):
            if self.keys and r.random() < 0.6:
                k = r.choice(self.keys)
                if r.random() < 0.3:
                    k = (k[0], k[1], self.type(False)) if r.random() < 0.5 else (k[1], k[0], k[2])
                out.append(k)
            else:
                out.append((r.choice(self.known + EXTREME), r.choice(self.known + EXTREME), self.type(False)))
        self.odd |= n == 0 or len(set(out)) < n or any(k not in self.keys for k in out)
        self.ctx.count("empty", int(n == 0))
        return [np.array([k[i] for k in out], dtype=np.int64 if i < 2 else np.int32) for i in range(3)]

    def type(self, edge=True):
        r = self.r
        return r.choice([0, 1, 2, 3, 3, 4, -1, 77, 2**31 - 1, -(2**31)]) if r.random() < 0.5 else r.randrange(5)

    def types(self):
        r = self.r
        if r.random() < 0.15:
            return self.type()
        out = [self.type() for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
        self.odd |= not out or len(set(out)) < len(out) or any(not 0 <= t < self.g.n_edge_types() for t in out)
        self.ctx.count("unknown types", int(any(not 0 <= t < self.g.n_edge_types() for t in out)))
        return out

    def stamps(self, n):
        """Times for n items; when there are fewer times than items the call has to be refused."""
        r = self.r
        if r.random() < (0.4 if self.times else 0.9):
            return {}
        # Times mean nothing to graphs that have none.
        self.may_refuse |= not self.times
        self.odd |= not self.times
        mark = self.g.watermark or 0
        pool = [0, 1, mark - 1, mark, mark + 1, -1, -5, 2**62, -(2**63), 2**63 - 1]
        m = n
        if r.random() < 0.15:
            m = max(0, n + r.choice([-1, 1, -n // 2, 3]))
        # Empty times are the same as no times.
        if 0 < m < n:
            self.must_refuse = True
        self.may_refuse |= m > n
        self.ctx.count("asked times")
        return {"timestamps": np.array([r.choice(pool) for _ in range(m)], dtype=np.int64)}

    def features(self, sized):
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 1, 2, 4]) if sized else r.choice([0, 1, 1, 2, 4])):
            f = r.choice([0, 1, 2, 3, 4, 5, 9, -1, 2**31 - 1, -(2**31)])
            size = r.choice([0, 1, 2, 3, 4, 8, 100, 1000])
            self.ctx.count("size zero", int(sized and size == 0))
            self.odd |= f < 0 or f > 4 or size == 0
            out.append([f, size] if sized else f)
        return np.array(out, dtype=np.int32)

    def dtype(self):
        return self.r.choice([np.uint8, np.int16, np.float32, np.int64, np.float64])

    def call(self, op, fn, *a, **kw):
        ctx = self.ctx
        shown = {"op": op, "args": [x.tolist() if isinstance(x, np.ndarray) else str(x) for x in a], "more": {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}, "graph": self.label}
        ctx.at(shown)
        ctx.count("calls")
        del LOST[:]
        try:
            out = fn(*a, **kw)
        except Exception as e:
            if self.may_refuse or self.must_refuse:
                ctx.count("refused")
                ctx.case((self.label, op, repr(shown)), True, {"op": op, "refused": type(e).__name__})
                return None
            ctx.violation("%s fails" % op, "%s: %s: %s" % (self.label, type(e).__name__, e), shown)
            return None
        if self.must_refuse:
            ctx.violation("%s takes arguments of unequal length" % op, self.label, shown)
            return None
        if LOST and not self.may_refuse:
            ctx.violation("%s loses an exception while it takes the answer" % op, "%s: %s" % (self.label, LOST[0]), shown)
            return None
        for x in arrays(out):
            if unwritten(x):
                ctx.violation("%s returns values nobody wrote" % op, "%s: %d of %d elements of an array of %s" % (self.label, unwritten(x), x.size, x.dtype), shown)
                break
        ctx.case((self.label, op, repr(shown)), self.odd, {"op": op, "graph": self.label, "shapes": [list(x.shape) for x in arrays(out)][:5]})
        return out

    def shape(self, op, x, want):
        if x is not None and tuple(x.shape) != tuple(want):
            self.ctx.violation("%s returns a wrong number of values" % op, "%s: %s instead of %s" % (self.label, x.shape, want), dict(self.ctx.last))

    def step(self):
        self.odd = self.may_refuse = self.must_refuse = False
        r, G = self.r, self.graph
        op = r.choice(OPS)
        return getattr(self, op)(r, G)

    # Two-dimensional lists of nodes are refused; nothing outside of the answer is written.
    def grid(self, r, G):
        wide = r.choice([2, 9, 40])
        nodes = np.array([[r.choice(self.known + EXTREME) for _ in range(wide)] for _ in range(r.choice([1, 2]))], dtype=np.int64)
        self.odd = self.may_refuse = True
        op = r.choice(["neighbor counts", "neighbors", "weighted", "uniform", "walk", "node types", "features", "strings", "sparse", "ppr", "last"])
        types = [0, 1]
        if op == "neighbor counts":
            self.call(op + " of a table", G.neighbor_counts, nodes, types)
        elif op == "neighbors":
            self.call(op + " of a table", G.neighbors, nodes, types)
        elif op == "weighted":
            self.call(op + " of a table", G.weighted_sample_neighbors, nodes, types, 3)
        elif op == "uniform":
            self.call(op + " of a table", G.uniform_sample_neighbors, r.random() < 0.5, nodes, types, 3)
        elif op == "walk":
            self.call(op + " of a table", G.random_walk, nodes, types, 3, 1.0, 1.0)
        elif op == "node types":
            self.call(op + " of a table", G.node_types, nodes, -1)
        elif op == "features":
            self.call(op + " of a table", G.node_features, nodes, np.array([[0, 2]]), np.float32)
        elif op == "strings":
            self.call(op + " of a table", G.node_string_features, nodes, np.array([0, 1]), np.uint8)
        elif op == "sparse":
            self.call(op + " of a table", G.node_sparse_features, nodes, np.array([0, 1]), np.uint8)
        elif op == "ppr":
            self.call(op + " of a table", G.ppr_neighbors, nodes, types, 3)
        elif self.g.temporal:
            self.call(op + " of a table", G.lastn_neighbors, nodes, types, np.zeros(nodes.shape, dtype=np.int64), 3)

    def counts(self, r, G):
        nodes = self.nodes()
        out = self.call("neighbor counts", G.neighbor_counts, nodes, self.types(), **self.stamps(len(nodes)))
        self.shape("neighbor counts", out, (len(nodes),))

    def neighbors(self, r, G):
        nodes = self.nodes()
        kw = self.stamps(len(nodes))
        if self.times and r.random() < 0.5:
            kw["return_edge_created_ts"] = True
        out = self.call("neighbors", G.neighbors, nodes, self.types(), **kw)
        if out is not None:
            self.shape("neighbors", out[3], (len(nodes),))
            for x in out[:3] + out[4:]:
                self.shape("neighbors", x, (int(out[3].sum()),))

    def sample(self, r, G):
        nodes = self.nodes()
        types, kw = self.types(), self.stamps(len(nodes))
        count = r.choice([0, 1, 1, 3, 10, 400])
        self.odd |= count == 0
        self.ctx.count("size zero", int(count == 0))
        kw["seed"] = r.choice([0, 1, -1, 2**63, 2**64 - 1, r.getrandbits(64)])
        if self.times and r.random() < 0.5:
            kw["return_edge_created_ts"] = True
        if r.random() < 0.5:
            out = self.call("weighted neighbor sampling", G.weighted_sample_neighbors, nodes, types, count, **kw)
        else:
            out = self.call("uniform neighbor sampling", G.uniform_sample_neighbors, r.random() < 0.5, nodes, types, count, **kw)
        for x in out or ():
            self.shape("neighbor sampling", x, (len(nodes), count))

    def last(self, r, G):
        if not self.times:
            return
        nodes = self.nodes()
        kw = self.stamps(len(nodes))
        kw.setdefault("timestamps", np.full(len(nodes), r.choice([0, 2**62]), dtype=np.int64))
        if len(kw["timestamps"]) < len(nodes):
            self.must_refuse = True
        count = r.choice([0, 1, 3, 50])
        out = self.call("last neighbors", G.lastn_neighbors, nodes, self.types(), count=count, return_edge_created_ts=r.random() < 0.5, **kw)
        for x in out or ():
            self.shape("last neighbors", x, (len(nodes), count))

    def ppr(self, r, G):
        nodes = self.nodes()
        nodes = nodes[:6]
        count = r.choice([0, 1, 4, 100])
        self.odd |= count == 0
        out = self.call("page rank", G.ppr_neighbors, nodes, self.types(), count, alpha=r.choice([0.2, 0.85, 0.99]), eps=r.choice([1e-3, 0.1, 2.0]), **self.stamps(len(nodes)))
        for x in out or ():
            self.shape("page rank", x, (len(nodes), count))

    def walk(self, r, G):
        nodes = self.nodes()
        length = r.choice([0, 1, 2, 7])
        self.odd |= length == 0
        out = self.call("random walk", G.random_walk, nodes, self.types(), length, r.choice([1.0, 0.001, 1000.0]), r.choice([1.0, 0.001, 1000.0]), seed=r.getrandbits(64), **self.stamps(len(nodes)))
        self.shape("random walk", out, (len(nodes), length + 1))

    def node_types(self, r, G):
        nodes = self.nodes()
        out = self.call("node types", G.node_types, nodes, r.choice([-1, 0, 99]))
        self.shape("node types", out, (len(nodes),))

    def type_counts(self, r, G):
        types = [self.type() for _ in range(r.choice([1, 2, 4]))]
        self.odd = True
        self.call("node counts", G.get_node_type_count, types)
        self.call("edge counts", G.get_edge_type_count, types)

    def dense(self, r, G):
        f = self.features(True)
        if r.random() < 0.05:
            f = np.concatenate([f, [[0, -int(r.choice([1, 3, 4]))], [1, 8]]]).astype(np.int32)
            self.odd = self.may_refuse = True
        dtype = self.dtype()
        if r.random() < 0.6:
            nodes = self.nodes()
            n = len(nodes)
            out = self.call("node features", G.node_features, nodes, f, dtype, **self.stamps(n))
        else:
            e = self.edges()
            n = len(e[0])
            out = self.call("edge features", G.edge_features, *e, f, dtype, **self.stamps(n))
        self.shape("dense features", out, (n, int(f[:, 1].sum())))

    def strings(self, r, G):
        f = self.features(False)
        if r.random() < 0.6:
            nodes = self.nodes()
            n = len(nodes)
            out = self.call("node strings", G.node_string_features, nodes, f, np.uint8, **self.stamps(n))
        else:
            e = self.edges()
            n = len(e[0])
            out = self.call("edge strings", G.edge_string_features, *e, f, np.uint8, **self.stamps(n))
        if out is not None:
            self.shape("strings", out[1], (n, len(f)))
            if int(out[1].sum()) != len(out[0]):
                self.ctx.violation("strings return a wrong number of values", "%s: %d bytes for lengths of %d" % (self.label, len(out[0]), out[1].sum()), dict(self.ctx.last))

    def sparse(self, r, G):
        """Features that are stored in another form cannot be read as coordinates; asking for them may fail. A client trusts the coordinates its servers send, so it is not asked for those."""
        node = r.random() < 0.6
        items = self.g.nodes.values() if node else self.g.edges
        other = {f for i in items for f, x in i.feats.items() if x.kind != "sparse"} | {f for i in items for f in i.blanks}
        sparse = {f: x.dtype for i in items for f, x in i.feats.items() if x.kind == "sparse" and f not in other}
        f = self.features(False)
        if self.remote or r.random() < 0.5:
            f = np.array([x for x in f if x not in other], dtype=np.int32)
        if len(f) and len({sparse[x] for x in f if x in sparse}) > 1:
            f = f[:1]
        self.may_refuse |= any(x in other for x in f)
        self.ctx.count("other kind", int(any(x in other for x in f)))
        dtype = ([sparse[x] for x in f if x in sparse] or [np.uint8])[0]
        if node:
            nodes = self.nodes()
            out = self.call("node sparse features", G.node_sparse_features, nodes, f, dtype, **self.stamps(len(nodes)))
        else:
            e = self.edges()
            out = self.call("edge sparse features", G.edge_sparse_features, *e, f, dtype, **self.stamps(len(e[0])))
        if out is not None and not self.may_refuse and (len(out[0]) != len(f) or len(out[1]) != len(f)):
            self.ctx.violation("sparse features are not one per requested feature", "%s: %d and %d instead of %d" % (self.label, len(out[0]), len(out[1]), len(f)), dict(self.ctx.last))

    def sampler(self, r, G):
        """Samplers of items that exist, together with types that do not; numbers of draws include none and more than there are."""
        from deepgnn.graph_engine.snark import client

        if self.without_samplers:
            return
        if self.samplers and r.random() < 0.6:
            s, kind, total, weight, real = r.choice(self.samplers)
        else:
            edge = r.random() < 0.5
            kind = r.choice(["weighted", "uniform", "withoutreplacement"])
            types = [self.type() for _ in range(r.choice([1, 2, 3]))]
            if len(types) == 1 and r.random() < 0.3:
                types = types[0]
            # A single -1 stands for all types.
            items = [i for i in (self.g.edges if edge else self.g.nodes.values()) if i.type in np.atleast_1d(types) or types == -1]
            # The same edge given several times is one edge to draw.
            total, weight = len({i.key() if edge else i.id for i in items}), sum(i.weight for i in items)
            self.odd = True
            self.may_refuse = total == 0
            s = self.call("%s sampler" % kind, (client.EdgeSampler if edge else client.NodeSampler), G, types, kind)
            if s is None:
                return
            real = {(i.src, i.dst, i.type) if edge else (i.id, i.type) for i in items}
            self.samplers.append((s, kind, total, weight, real))
        size = r.choice([0, 1, 2, 5, 64, total, total + 1, 3 * total + 5])
        self.odd = size in (0, total) or size > total
        self.may_refuse = total == 0 or (kind == "weighted" and weight == 0) or (kind == "withoutreplacement" and size > total)
        self.ctx.count("size zero", int(size == 0))
        self.ctx.count("sampled")
        out = self.call("%s draws" % kind, s.sample, size, r.choice([0, 2**64 - 1, r.getrandbits(64)]))
        if out is not None:
            for x in arrays(out):
                self.shape("draws", x, (size,))
            # Places nothing can be drawn for are -1.
            drawn = {tuple(int(v) for v in i) for i in zip(*out)}
            strange = [i for i in drawn - real if not (self.may_refuse and all(v == -1 for v in i[:-1]))]
            if strange:
                self.ctx.violation("%s draws return items that do not exist" % kind, "%s: %s, %d of %d; weights of types %s" % (self.label, strange[:3], len(strange), len(drawn), {t: sum(i.weight for i in (self.g.edges if len(strange[0]) == 3 else self.g.nodes.values()) if i.type == t) for t in sorted({i[-1] for i in real})}), dict(self.ctx.last))


OPS = ["counts", "neighbors", "sample", "sample", "last", "ppr", "walk", "node_types", "type_counts", "dense", "dense", "dense", "strings", "strings", "sparse", "sparse", "sampler", "sampler", "grid"]


def run(job, ctx):
    fill_new_arrays()
    watch_callbacks()
    r = ctx.rng(job["name"])
    for gi in range(job["graphs"]):
        kind = r.choice(["any", "any", "temporal", "no edges", "no features", "single", "bare"])
        g = make_graph(r, kind)
        oracle.prepare(r, g)
        parts = r.choice([1, 1, 2, 3])
        out = os.path.join(ctx.scratch, "g%d" % gi)
        skip = r.random() < 0.2
        ctx.at({"op": "convert", "graph": g.summary()})
        gmodel.convert(g, out, parts, gmodel.even_assign(g, parts), (lambda s, k, p=parts: (s + k) % p) if parts > 1 and r.random() < 0.4 else None, **({"skip_node_sampler": True, "skip_edge_sampler": True} if skip else {}))
        ctx.count("without edges", int(not g.edges))
        ctx.count("without features", int(not any(i.feats for i in list(g.nodes.values()) + g.edges)))
        how = ["memory", "disk", "remote", "remote"][(gi + int(job["name"][-1])) % 4]
        label = "%s%d %s %s" % (job["name"], gi, kind, how)
        with ctx.trial():
            if how == "remote":
                layout = r.choice([[list(range(parts))], [[p] for p in range(parts)]])
                kw = {}
                if r.random() < 0.25:
                    kw["skip_feature_loading"] = True
                if g.temporal and r.random() < 0.2:
                    kw["skip_temporal_loading"] = True
                ctx.count("without files", int(bool(kw)))
                with native.cluster(out, layout, **kw) as cl:
                    graph = cl.client()
                    ctx.count("remote")
                    drive(job, ctx, Hostile(ctx, r, g, graph, label, g.temporal and "skip_temporal_loading" not in kw, skip))
            else:
                from deepgnn.graph_engine.snark.client import PartitionStorageType

                graph = native.memory_graph(out, list(range(parts)), storage_type=PartitionStorageType[how])
                ctx.count("local" if how == "memory" else "disk")
                drive(job, ctx, Hostile(ctx, r, g, graph, label, g.temporal, skip))


def drive(job, ctx, h):
    for _ in range(job["calls"]):
        h.step()
    for s in h.samplers:
        s[0].reset()
    h.graph.reset()
