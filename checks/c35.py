"""Layers for tensorflow models: what a layer computes for a node comes from this node and its own neighbours."""
import logging
import warnings

LEVEL = "exploration"
RULE = "one case is one layer or metric applied to one batch or graph; it is nontrivial when the batch has a node, and distinct by layer, shape and seed"
ASSUMPTIONS = [
    "tensorflow is replaced by a stand-in that computes in double precision; kernels, gradients and training are outside",
    "random dropout in layers without a switch for training is outside: these layers run without dropout",
    "every node of a graph given to an attention layer has at least an edge to itself, as the models of the repository ask for; edges of sparse matrices are sorted and different",
]
NEED = {
    "mean": 60, "maxpool": 60, "lstm": 60, "aggregators with bias": 60, "aggregators joined": 60, "trees": 150, "deep trees": 60, "directed graphs": 100, "zero neighbours": 20,
    "normalized dense": 100, "normalized sparse": 100, "weighted graphs": 60, "graphs with lonely nodes": 60, "gcn": 100, "attention": 100, "several heads": 60, "heads averaged": 40, "dropout off": 60, "dropout on": 40,
    "att encoder": 60, "att encoder heads": 30, "han encoder": 60, "han paths": 30, "han hops": 20, "han layers": 20, "metrics": 200, "masked": 100, "dense layers": 60, "embeddings": 60, "sparse embeddings": 60,
}
PARALLEL = 4


def plan(tier, seed):
    big = tier == "thorough"
    return [{"name": "t%d" % i, "cases": 900 if big else 90, "timeout": 800} for i in range(4)]


def run(job, ctx):
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy as np

    import faketf as ft

    tf = ft.install()
    from deepgnn.graph_engine import Graph
    from deepgnn.tf import layers
    from deepgnn.tf.encoders import AttEncoder, HANEncoder
    from deepgnn.tf.nn import metrics, sage_conv
    from deepgnn.tf.nn.gat_conv import AttnHead, GATConv
    from deepgnn.tf.nn.gcn_conv import GCNConv, gcn_norm_adj

    def call(what, fn, *args, case=None, **kwargs):
        return ctx.call(what, ft.guard(fn), *args, case=case, **kwargs)

    def arr(x):
        return np.asarray(ft.raw(x), dtype=float)

    def near(a, b, tol=1e-8):
        a, b = arr(a), arr(b)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))

    def same(a, b, mech, what, case, tol=1e-8):
        if not near(a, b, tol):
            ctx.fail(mech, "%s: %s instead of %s" % (what, np.round(arr(a), 4).tolist(), np.round(arr(b), 4).tolist()), case)

    def vals(r, *shape):
        return np.array([r.uniform(-2, 2) for _ in range(int(np.prod(shape)))]).reshape(shape)

    # ---- neighbours in trees

    KINDS = {"mean": sage_conv.MeanAggregator, "maxpool": sage_conv.MaxPoolingAggregator, "lstm": sage_conv.LSTMAggregator}

    def aggregator(r, case):
        kind = r.choice(sorted(KINDS))
        n, near_, dim, out = r.choice([1, 2, 5]), r.choice([1, 2, 4]), r.choice([1, 3]), r.choice([2, 5])
        bias, concat = r.random() < 0.4, r.random() < 0.5
        act = r.choice([None, tf.nn.elu])
        case.update(layer=kind, nodes=n, neighbours=near_, dim=dim, out=out, bias=bias, concat=concat, act=act is not None)
        kw = {} if kind == "mean" else {"hidden_dim": r.choice([7, 9])}
        agg = call("aggregator", KINDS[kind], output_dim=out, bias=bias, act=act, concat=concat, case=case, **kw)
        x, y = vals(r, n, dim), vals(r, n, near_, dim)

        def at(a, b):
            return arr(call("aggregator", agg, (a, b), case=case))

        base = at(x, y)
        if bias:
            small = [v for v in agg.variables if v.a.ndim == 1 and not v.a.any() and v.a.size == base.shape[1]]
            ctx.expect(len(small) == 1, "an aggregator has no bias", "%d values added to %d" % (len(small), base.shape[1]), case)
            if act is None:
                small[0].assign(np.arange(base.shape[1]) + 1.0)
                same(at(x, y), base + np.arange(base.shape[1]) + 1.0, "the bias is not added", kind, case)
                base = at(x, y)
            ctx.count("aggregators with bias")
        ctx.expect(base.shape == (n, out * (2 if concat else 1)), "wrong shape of embeddings", str(base.shape), case)
        i = r.randrange(n)
        same(at(x[i : i + 1], y[i : i + 1]), base[i : i + 1], "an embedding depends on other nodes of the batch", kind, case)
        p = list(range(n))
        r.shuffle(p)
        same(at(x[p], y[p]), base[p], "embeddings are in another order than nodes", kind, case)
        q = list(range(near_))
        r.shuffle(q)
        if kind == "mean":
            same(at(x, y[:, q]), base, "the order of neighbours matters", kind, case)
            same(at(x, np.repeat(y.mean(1, keepdims=True), near_, 1)), base, "neighbours are not averaged", kind, case)
        elif kind == "maxpool":
            same(at(x, y[:, q]), base, "the order of neighbours matters", kind, case)
            same(at(x, np.concatenate([y, y[:, :1]], 1)), base, "a repeated neighbour changes the maximum", kind, case)
        else:
            same(at(x, np.concatenate([y, np.zeros((n, 2, dim))], 1)), base, "missing neighbours change the embedding", kind, case)
            last = y.copy()
            last[:, -1] += 1.0
            ctx.expect(not near(at(x, last), base), "the last neighbour is ignored", kind, case)
            ctx.count("zero neighbours")
        other = at(x + 1.0, y)
        ctx.expect(not near(other, base), "the node itself is ignored", kind, case)
        one = x.copy()
        one[:, r.randrange(dim)] += 1.0
        ctx.expect(not near(at(one, y), base), "a part of features is ignored", kind, case)
        if kind == "mean":
            one = y.copy()
            one[:, r.randrange(near_), r.randrange(dim)] += 1.0
            ctx.expect(not near(at(x, one), base), "a part of features is ignored", kind, case)
        if concat:
            # One half is about the node, the other half about its neighbours.
            same(other[:, out:], base[:, out:], "halves of the embedding are mixed", kind, case)
            same(at(x, y - 3.0)[:, :out], base[:, :out], "halves of the embedding are mixed", kind, case)
            ctx.count("aggregators joined")
        ctx.count(kind)

    def tree(r, case):
        kind = r.choice(["mean", "mean", "maxpool", "lstm"])
        hops = r.choice([1, 2, 2, 3])
        nums = [r.choice([1, 2, 3]) for _ in range(hops)]
        dims = [r.choice([1, 2])] + [r.choice([2, 3]) for _ in range(hops)]
        concat = r.random() < 0.5
        n = r.choice([1, 2, 4])
        case.update(layer=kind, counts=nums, dims=dims, concat=concat, nodes=n)
        aggs = call("init_aggregators", sage_conv.init_aggregators, kind, dims[1:], 0.0, concat, case=case)
        ctx.expect(len(aggs) == hops, "wrong number of layers", str(len(aggs)), case)
        sizes = [n]
        for h in range(hops):
            sizes.append(sizes[-1] * nums[hops - h - 1])
        levels = [vals(r, s, dims[0]) for s in sizes]

        def at(ls):
            return arr(call("aggregate", sage_conv.aggregate, [tf.convert_to_tensor(x) for x in ls], aggs, nums, tuple(dims), concat, case=case))

        base = at(levels)
        ctx.expect(base.shape == (n, dims[-1] * (2 if concat else 1)), "wrong shape of embeddings", str(base.shape), case)
        i = r.randrange(n)
        share = [s // n for s in sizes]
        alone = [x[i * k : (i + 1) * k] for x, k in zip(levels, share)]
        same(at(alone), base[i : i + 1], "an embedding depends on the neighbours of other nodes", "%s, %d hops" % (kind, hops), case)
        # Each level of the own tree counts.
        for h in range(hops + 1):
            moved = [x.copy() for x in alone]
            moved[h] = moved[h] * -1.5 + r.choice([-0.7, 0.9])
            more = [x.copy() for x in alone]
            more[h] = more[h] * 3.0 + 2.0
            if near(at(moved), at(alone)) and near(at(more), at(alone)):
                # Rectified values may hide a part of the tree from a small layer.
                ctx.count("hidden levels")
            else:
                ctx.count("visible levels")
        # Layers rectify their results, the last one does not.
        ctx.count("negative embeddings", hops > 1 and bool((base < 0).any()))
        if kind == "mean" and hops > 1:
            ctx.count("curved embeddings", not near(at([-x for x in levels]), -base, 1e-6))
        # The same neighbours below each node: the node is computed as if it had one of them.
        if kind == "mean":
            flat = [x.copy() for x in alone]
            flat[hops] = np.repeat(flat[hops].reshape(-1, nums[0], dims[0]).mean(1), nums[0], 0)
            same(at(flat), at(alone), "neighbours of the last hop are not averaged by node", kind, case)
        ctx.count("trees")
        ctx.count("deep trees", hops > 1)

    # ---- adjacency

    def graph_of(r, loops, lonely):
        n = r.choice([1, 2, 4, 7])
        a = np.array([[1.0 if r.random() < 0.4 else 0.0 for _ in range(n)] for _ in range(n)])
        if r.random() < 0.5:
            a = np.maximum(a, a.T)
        else:
            ctx.count("directed graphs")
        if loops:
            np.fill_diagonal(a, 1.0)
        elif lonely:
            k = r.randrange(n)
            a[k, :] = 0
            a[:, k] = 0
        return a

    def sparse_of(a):
        edges = np.argwhere(a != 0)
        return tf.SparseTensor(edges, a[a != 0], np.array(a.shape, np.int64))

    def dense(x):
        return x.dense() if isinstance(x, tf.SparseTensor) else arr(x)

    def normalized(r, case):
        a = graph_of(r, r.random() < 0.5, True)
        weighted = r.random() < 0.5
        if weighted:
            w = np.abs(vals(r, *a.shape)) + 0.1
            a = a * (w + w.T) if (a == a.T).all() else a * w
            ctx.count("weighted graphs")
        case.update(graph=np.round(a, 3).tolist())
        deg = a.sum(1)
        inv = np.array([0.0 if x == 0 else x**-0.5 for x in deg])
        want = inv[:, None] * a * inv[None, :]
        same(dense(call("gcn_norm_adj", gcn_norm_adj, tf.convert_to_tensor(a), case=case)), want, "a graph is normalized wrong", "dense", case)
        ctx.count("normalized dense")
        got = call("gcn_norm_adj", gcn_norm_adj, sparse_of(a), case=case)
        ctx.expect(isinstance(got, tf.SparseTensor), "a sparse graph became dense", type(got).__name__, case)
        same(dense(got), want, "a graph is normalized wrong", "sparse", case)
        ctx.count("normalized sparse")
        ctx.count("graphs with lonely nodes", bool((deg == 0).any()))

    def spread(r, case, what, at, x, a, self_seen):
        """Locality, order and the sparse form of a layer on a graph."""
        n = len(a)
        base = at(x, a)
        same(at(x, a, True), base, "sparse and dense graphs give different embeddings", what, case)
        i = r.randrange(n)
        far = [j for j in range(n) if a[i, j] == 0 and j != i]
        moved = x.copy()
        for j in far:
            moved[j] += 2.5
        same(at(moved, a)[i], base[i], "an embedding depends on nodes that are not neighbours", what, case, 1e-7)
        p = list(range(n))
        r.shuffle(p)
        same(at(x[p], a[np.ix_(p, p)]), base[p], "embeddings are in another order than nodes", what, case, 1e-7)
        j = r.choice([k for k in range(n) if a[i, k] != 0] or [None])
        if j is not None:
            moved = x.copy()
            moved[j] = moved[j] * -2.0 + 3.0
            if near(at(moved, a)[i], base[i], 1e-9):
                ctx.fail("a neighbour is ignored", "%s: node %d, neighbour %d" % (what, i, j), case)
        return base

    def gcn(r, case):
        a = graph_of(r, r.random() < 0.5, True)
        if r.random() < 0.5:
            a = arr(gcn_norm_adj(tf.convert_to_tensor(a)))
        dim, out = r.choice([1, 3]), r.choice([2, 4])
        drop = r.choice([0.0, 0.5])
        case.update(graph=np.round(a, 3).tolist(), dim=dim, out=out, dropout=drop)
        layer = call("GCNConv", GCNConv, out_dim=out, dropout=drop, use_bias=r.random() < 0.5, case=case)
        x = vals(r, len(a), dim)

        def at(x, a, sparse=False):
            return arr(call("GCNConv", layer, [tf.convert_to_tensor(x), sparse_of(a) if sparse else tf.convert_to_tensor(a)], training=False, case=case))

        base = spread(r, case, "gcn", at, x, a, False)
        ctx.expect(base.shape == (len(a), out), "wrong shape of embeddings", str(base.shape), case)
        same(at(2 * x, a) - at(0 * x, a), 2 * (base - at(0 * x, a)), "the layer is not linear in its inputs", "gcn", case)
        if drop:
            ctx.count("dropout off")
            tries = [arr(layer([tf.convert_to_tensor(x + 1.0), tf.convert_to_tensor(np.ones((len(a), len(a))))], training=True)) for _ in range(30)]
            ctx.expect(any(not near(t, tries[0]) for t in tries), "dropout does nothing in training", "gcn", case)
            ctx.count("dropout on")
        ctx.count("gcn")

    def attention(r, case):
        a = graph_of(r, True, False)
        dim, out = r.choice([1, 3]), r.choice([2, 4])
        heads = r.choice([1, 2, 3])
        drops = r.choice([(0.0, 0.0), (0.6, 0.0), (0.0, 0.6), (0.5, 0.5)])
        how = r.choice(["concat", "average"])
        case.update(graph=a.tolist(), dim=dim, out=out, heads=heads, dropout=drops, how=how)
        seed = r.randrange(1 << 30)
        x = vals(r, len(a), dim)

        def make(how):
            layer = call("GATConv", GATConv, out_dim=out, attn_heads=heads, in_drop=drops[0], coef_drop=drops[1], attn_aggregate=how, case=case)
            ft.RNG[0] = np.random.default_rng(seed)
            return layer

        def at(layer, x, a, sparse=False):
            return arr(call("GATConv", layer, [tf.convert_to_tensor(x), sparse_of(a) if sparse else tf.convert_to_tensor(a)], training=False, case=case))

        layer = make(how)
        base = spread(r, case, "gat", lambda *args: at(layer, *args), x, a, True)
        ctx.expect(base.shape == (len(a), out * (heads if how == "concat" else 1)), "wrong shape of embeddings", str(base.shape), case)
        other = make("average" if how == "concat" else "concat")
        got = at(other, x, a)
        joined, mean = (base, got) if how == "concat" else (got, base)
        same(mean, joined.reshape(len(a), heads, out).mean(1), "the average of heads is wrong", "gat", case)
        # Attention averages: equal neighbours give what a single node gives.
        if heads > 1:
            parts = joined.reshape(len(a), heads, out)
            ctx.expect(not near(parts[:, 0], parts[:, -1], 1e-10), "heads share their weights", "gat: %d heads" % heads, case)
        level = np.repeat(x[:1], len(a), 0)
        same(at(layer, level, a), np.repeat(at(layer, x[:1], np.ones((1, 1))), len(a), 0), "attention does not sum to one", "gat", case)
        if any(drops):
            ctx.count("dropout off")
            tries = [arr(layer([tf.convert_to_tensor(vals(r, 6, dim) * 0 + 1.3), tf.convert_to_tensor(np.ones((6, 6)))], training=True)) for _ in range(30)]
            ctx.expect(any(not near(t, tries[0]) for t in tries), "dropout does nothing in training", "gat", case)
            ctx.count("dropout on")
        head = call("AttnHead", AttnHead, out, case=case)
        spread(r, case, "head", lambda x, a, s=False: arr(call("AttnHead", head, [tf.convert_to_tensor(x), sparse_of(a) if s else tf.convert_to_tensor(a)], training=False, case=case)), x, a, True)
        ctx.count("attention")
        ctx.count("several heads", heads > 1)
        ctx.count("heads averaged", how == "average" and heads > 1)

    # ---- encoders

    class Source(Graph):
        """Neighbours of a node are always the same."""

        def __init__(self, feats, nb):
            self.feats, self.nb = feats, nb

        def sample_neighbors(self, nodes, edge_types, count=10, *args, **kwargs):
            t = int(np.asarray(edge_types).reshape(-1)[0])
            out = np.array([[self.nb[t][int(n)][k % len(self.nb[t][int(n)])] for k in range(count)] for n in np.asarray(nodes).reshape(-1)], dtype=np.int64)
            return out, np.ones(out.shape, np.float32), np.full(out.shape, t, np.int32), np.zeros(out.shape, np.int64)

        def node_features(self, nodes, features, dtype, *args, **kwargs):
            (fid, dim), = np.asarray(features).reshape(-1, 2)
            return np.array([self.feats[int(n)][:dim] + 0.5 * int(fid) for n in np.asarray(nodes).reshape(-1)], dtype=np.float64).reshape(-1, dim)

    Source.__abstractmethods__ = frozenset()

    class Level:
        """All weights of a layer are equal and give the mean of its inputs."""

        def normal(self, mean, dev, shape):
            return np.full(shape, 1.0 / shape[0])

    def att(r, case):
        n, dim = 9, r.choice([1, 3])
        feats = {i: vals(r, dim) for i in range(n)}
        nb = {t: {i: [r.randrange(n) for _ in range(5)] for i in range(n)} for t in (0, 1)}
        heads, count, out, t, fid = r.choice([1, 2, 3]), r.choice([1, 3, 5]), r.choice([1, 4]), r.choice([0, 1]), r.choice([0, 1])
        nodes = np.array([r.randrange(n) for _ in range(r.choice([1, 2, 6]))], dtype=np.int64)
        case.update(nodes=nodes.tolist(), heads=heads, neighbours=count, out=out, type=t)
        enc = call("AttEncoder", AttEncoder, edge_type=t, feature_idx=fid, feature_dim=dim, head_num=heads, hidden_dim=r.choice([2, 5]), nb_num=count, out_dim=out, case=case)

        def at(nodes, feats_=feats, nb_=nb, enc=enc):
            src = Source(feats_, nb_)
            c = call("AttEncoder", enc.query, src, {"inputs": np.asarray(nodes)}, case=case)
            return arr(call("AttEncoder", enc, {k: tf.convert_to_tensor(v) for k, v in c.items()}, case=case))

        base = at(nodes)
        ctx.expect(base.shape == (len(nodes), out), "wrong shape of embeddings", str(base.shape), case)
        i = r.randrange(len(nodes))
        same(at(nodes[i : i + 1]), base[i : i + 1], "an embedding depends on other nodes of the batch", "att", case)
        me = int(nodes[i])
        mine = {me, *nb[t][me][:count]}
        far = {k: (v if k in mine else v + 5.0) for k, v in feats.items()}
        same(at(nodes, far)[i], base[i], "an embedding depends on nodes that are not neighbours", "att", case)
        k = r.choice(sorted(mine))
        ctx.expect(not near(at(nodes, {j: (v * -1.3 + 2.0 if j == k else v) for j, v in feats.items()})[i], base[i], 1e-10), "a neighbour is ignored", "att: node %d of %d" % (k, me), case)
        d = r.randrange(dim)
        ctx.expect(not near(at(nodes, {j: (v + (np.arange(dim) == d) * 1.1 if j == k else v) for j, v in feats.items()})[i], base[i], 1e-10), "a part of features is ignored", "att: node %d of %d" % (k, me), case)
        turned = {a: {b: v[:count][::-1] + v[count:] for b, v in m.items()} for a, m in nb.items()}
        same(at(nodes, feats, turned), base, "the order of neighbours matters", "att", case)
        p = list(nodes)
        r.shuffle(p)
        want = {int(a): b for a, b in zip(nodes, base)}
        same(at(np.array(p)), np.array([want[int(a)] for a in p]), "embeddings are in another order than nodes", "att", case)
        if heads > 1:
            # Heads with the same weights give what one of them gives, others do not.
            got = []
            for rng in (Level(), np.random.default_rng(r.randrange(1 << 30))):
                for h in (1, heads):
                    ft.RNG[0] = rng
                    other = call("AttEncoder", AttEncoder, edge_type=t, feature_idx=fid, feature_dim=dim, head_num=h, hidden_dim=2, nb_num=count, out_dim=out, case=case)
                    got.append(at(nodes, enc=other))
            same(got[1], got[0], "the average of heads is wrong", "att: %d heads" % heads, case, 1e-6)
        ctx.count("att encoder")
        ctx.count("att encoder heads", heads > 1)

    def han(r, case):
        hops = r.choice([1, 1, 2, 2, 3])
        paths = r.choice([1, 2, 3])
        nb = [r.choice([1, 2, 3]) for _ in range(hops)]
        depth = r.choice([1, 1, 2])
        heads = [r.choice([1, 2]) for _ in range(depth)]
        hidden = [r.choice([2, 3]) for _ in range(depth)]
        dim, n = r.choice([1, 2]), r.choice([1, 2, 4])
        case.update(paths=paths, counts=nb, heads=heads, hidden=hidden, dim=dim, nodes=n)
        types = [[0]] * (paths * hops)
        enc = call("HANEncoder", HANEncoder, edge_types=types, head_num=heads, hidden_dim=hidden, nb_num=nb, feature_idx=0, feature_dim=dim, out_dim=4, case=case)
        total = int(np.prod(nb))
        x, y = vals(r, paths, n, 1, dim), vals(r, paths, n, total, dim)

        def at(x, y):
            return arr(call("HANEncoder", enc, (tf.convert_to_tensor(x), tf.convert_to_tensor(y)), case=case))

        base = at(x, y)
        ctx.expect(base.shape == (n, hidden[-1] * heads[-1]), "wrong shape of embeddings", str(base.shape), case)
        i = r.randrange(n)
        same(at(x[:, i : i + 1], y[:, i : i + 1]), base[i : i + 1], "an embedding depends on other nodes of the batch", "han", case)
        p = list(range(n))
        r.shuffle(p)
        same(at(x[:, p], y[:, p]), base[p], "embeddings are in another order than nodes", "han", case)
        q = list(range(total))
        r.shuffle(q)
        same(at(x, y[:, :, q]), base, "the order of neighbours matters", "han", case)
        for path in range(paths):
            moved = y.copy()
            moved[path, i, r.randrange(total)] += 2.0
            got = at(x, moved)
            ctx.expect(not near(got[i], base[i], 1e-11), "a neighbour is ignored", "han: path %d" % path, case)
            moved = x.copy()
            moved[path, i] += 2.0
            ctx.expect(not near(at(moved, y)[i], base[i], 1e-11), "the node itself is ignored", "han: path %d" % path, case)
        if paths > 1:
            # Every path has weights of its own.
            ctx.expect(not near(at(x[::-1], y[::-1]), base, 1e-9), "paths share their weights", "han: %d paths" % paths, case)
        ctx.count("han encoder")
        ctx.count("han paths", paths > 1)
        ctx.count("han hops", hops > 1)
        ctx.count("han layers", depth > 1)

    # ---- small parts

    def measures(r, case):
        n, classes = r.choice([1, 3, 8]), r.choice([2, 4])
        preds, labels = vals(r, n, classes), np.eye(classes)[[r.randrange(classes) for _ in range(n)]]
        mask = np.array([r.random() < 0.6 for _ in range(n)])
        masked = r.random() < 0.6
        if not mask.any():
            mask[r.randrange(n)] = True
        case.update(nodes=n, classes=classes, mask=mask.tolist() if masked else None)
        rows = mask if masked else np.ones(n, bool)
        e = np.exp(preds - preds.max(1, keepdims=True))
        logp = np.log(e / e.sum(1, keepdims=True))
        args = (tf.convert_to_tensor(preds), tf.convert_to_tensor(labels)) + ((tf.convert_to_tensor(mask),) if masked else ())
        same(call("masked_softmax_cross_entropy", metrics.masked_softmax_cross_entropy, *args, case=case), -(labels * logp).sum(1)[rows].mean(), "the loss is wrong", "masked" if masked else "plain", case)
        same(call("masked_accuracy", metrics.masked_accuracy, *args, case=case), (preds.argmax(1) == labels.argmax(1))[rows].mean(), "the accuracy is wrong", "masked" if masked else "plain", case)
        ctx.count("metrics")
        ctx.count("masked", masked)

    def parts(r, case):
        n, dim, out = r.choice([1, 3]), r.choice([1, 4]), r.choice([1, 3])
        layer = call("Dense", layers.Dense, out, use_bias=r.random() < 0.5, case=case)
        x = vals(r, n, 2, dim)
        deep = arr(call("Dense", layer, tf.convert_to_tensor(x), case=case))
        flat = arr(call("Dense", layer, tf.convert_to_tensor(x.reshape(-1, dim)), case=case))
        ctx.expect(deep.shape == (n, 2, out), "wrong shape of embeddings", str(deep.shape), case)
        same(deep.reshape(-1, out), flat, "a layer depends on the shape of the batch", "dense", case)
        ctx.count("dense layers")
        top = r.choice([0, 3, 9])
        emb = call("Embedding", layers.Embedding, top, dim, case=case)
        ids = np.array([[r.choice([0, top, r.randint(0, top)]) for _ in range(3)] for _ in range(n)])
        rows = arr(call("Embedding", emb, tf.convert_to_tensor(np.arange(top + 1)), case=case))
        ctx.expect(rows.shape == (top + 1, dim) and len({tuple(x) for x in rows}) == top + 1, "wrong shape of embeddings", str(rows.shape), case)
        same(call("Embedding", emb, tf.convert_to_tensor(ids), case=case), rows[ids], "an embedding belongs to another id", "embedding", case)
        ctx.count("embeddings")
        how = r.choice(["sum", "mean"])
        lists = [[r.randint(0, top) for _ in range(r.choice([1, 2, 3]))] for _ in range(n)]
        sp = call("SparseEmbedding", layers.SparseEmbedding, top, dim, combiner=how, case=case)
        where = np.array([[i, j] for i, l in enumerate(lists) for j in range(len(l))])
        one = tf.SparseTensor(np.array([[i, 0] for i in range(top + 1)]), np.arange(top + 1), np.array([top + 1, 1]))
        rows = arr(call("SparseEmbedding", sp, one, case=case))
        got = call("SparseEmbedding", sp, tf.SparseTensor(where, np.array([v for l in lists for v in l]), np.array([n, 3])), case=case)
        same(got, np.array([getattr(rows[l], how)(0) for l in lists]), "an embedding belongs to another id", "sparse embedding, %s" % how, case)
        ctx.count("sparse embeddings")

    kinds = [aggregator, aggregator, aggregator, tree, tree, normalized, normalized, gcn, gcn, attention, attention, att, han, han, measures, parts]
    for k in range(job["cases"]):
        for i, fn in enumerate(kinds):
            r = ctx.rng(job["name"], k, i)
            ft.RNG[0] = np.random.default_rng(r.randrange(1 << 30))
            case = {"kind": fn.__name__, "n": k}
            ctx.at({"op": fn.__name__, "case": case})
            try:
                with ctx.trial():
                    fn(r, case)
            except ft.Gap as e:
                raise RuntimeError("the stand-in of tensorflow lacks %s" % e) from None
            ctx.case((job["name"], k, i), True, {a: str(b)[:60] for a, b in case.items()} if k < 2 else None)
    trees = ctx.counters.get("deep trees", 0)
    if trees > 50 and not ctx.counters.get("negative embeddings"):
        ctx.violation("embeddings are never negative", "%d trees" % trees, {"kind": "tree"})
    if trees > 50 and not ctx.counters.get("curved embeddings"):
        ctx.violation("layers are not rectified", "%d trees" % trees, {"kind": "tree"})
