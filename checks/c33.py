"""Encoders of models: data of a batch, text of nodes, embeddings and scores belong to the right nodes."""
import argparse
import io
import json
import os
import random
import warnings

LEVEL = "exploration"
RULE = "one case is one batch that went through an encoder, a tokenizer, a model or a metric; it is nontrivial when the batch has at least two nodes or is the only node of a batch, and distinct by encoder, shape and seed"
ASSUMPTIONS = [
    "torch and transformers are replaced by stand-ins that compute in double precision; kernels of torch, training of weights and 16 bit arithmetic are outside",
    "two layers of neighbours are queried, as the models of the repository do; text is tokenized as three letter pieces of words or as words",
    "the attention of one node over its own neighbours is judged by independence of other nodes, not by the formula",
]
NEED = {
    "sage one layer": 200, "sage two layers": 200, "sage counts differ": 80, "sage repeated nodes": 150, "sage lonely nodes": 80, "sage batch of one": 40,
    "lightgcn": 60, "gat": 60, "lgcl": 60, "hetgnn": 60, "lgcl deeper": 30, "hetgnn with own encoders": 20, "neighbours moved": 100, "encoder batch of one": 60, "attention": 80, "attention sparse": 80,
    "text": 1000, "text cut in a character": 40, "text with other letters": 200, "text empty": 50, "text nested": 60, "text in a grid": 60, "tokens given": 60, "tokens given in a grid": 30,
    "text embedded": 100, "types embedded": 40, "supervised": 200, "supervised batch of one": 40, "metrics": 300, "embedding lines": 300, "features fetched cut": 30, "encoders restored": 60, "encoders from arguments": 60, "examples": 60, "features encoded by a model": 30,
}
PARALLEL = 4


def plan(tier, seed):
    big = tier == "thorough"
    return [{"name": "m%d" % i, "cases": 1200 if big else 120, "timeout": 800} for i in range(4 if big else 3)]


def stand_in_graph(np, Graph, adj, feats, r):
    """Neighbours and features of nodes from dictionaries; keeps what was asked and answered."""

    class Fake(Graph):
        def __init__(self):
            self.asked = []

        def sample_neighbors(self, nodes, edge_types, count=10, *args, **kwargs):
            nodes = np.asarray(nodes).reshape(-1)
            out = np.array([[r.choice(adj[int(n)]) if adj.get(int(n)) else -1 for _ in range(count)] for n in nodes], dtype=np.int64).reshape(len(nodes), count)
            self.asked.append((nodes.copy(), count, out))
            return out, np.ones_like(out, dtype=np.float32), np.zeros_like(out, dtype=np.int32), np.zeros_like(out)

        def node_features(self, nodes, features, dtype, *args, **kwargs):
            (fid, dim), = np.asarray(features).reshape(-1, 2)
            rows = []
            for n in np.asarray(nodes).reshape(-1):
                v = feats.get(int(n))
                row = np.zeros(dim, dtype)
                if v is not None:
                    v = v[int(fid)]
                    row[: min(dim, len(v))] = v[:dim]
                rows.append(row)
            return np.array(rows, dtype).reshape(-1, dim)

        def sample_nodes(self, size, *args, **kwargs):
            return np.array([r.choice(sorted(adj)) for _ in range(size)], dtype=np.int64)

    Fake.__abstractmethods__ = frozenset()
    return Fake()


def run(job, ctx):
    warnings.simplefilter("ignore")
    import numpy as np

    import fakenn
    import faketorch as ft

    fakenn.install()
    import torch

    from deepgnn.graph_engine import Graph
    from deepgnn.pytorch.common import consts, metrics
    from deepgnn.pytorch.common.aggregators import MeanAggregator
    from deepgnn.pytorch.encoding import GatEncoder, HetGnnEncoder, LgclEncoder, LightGCNEncoder, MultiTypeFeatureEncoder, SageEncoder, TwinBERTFeatureEncoder
    from deepgnn.pytorch.encoding.feature_encoder import get_feature_encoder
    from deepgnn.pytorch.encoding.twinbert.encoder import TwinBERTEncoder
    from deepgnn.pytorch.modeling.base_model import BaseModel, BaseSupervisedModel, BaseUnsupervisedModel
    from deepgnn.pytorch.nn.gat_conv import GATConv

    raw, Tensor = ft.raw, torch.Tensor

    def call(what, fn, *args, case=None, **kwargs):
        return ctx.call(what, fakenn.guard(fn), *args, case=case, **kwargs)

    lk = torch.nn.functional.leaky_relu

    def close(a, b):
        a, b = np.asarray(raw(a), dtype=float), np.asarray(raw(b), dtype=float)
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-6)

    def sage(r, case):
        n = r.choice([3, 6, 15, 40])
        ids = r.sample(range(10 * n), n)
        adj = {i: [] if r.random() < 0.15 else [r.choice(ids) for _ in range(r.choice([1, 2, 5]))] for i in ids}
        dim = r.choice([1, 2, 5])
        fid = r.choice([0, 2])
        # The first value tells the node.
        feats = {i: {f: np.array([i + 1.0] + [r.uniform(-1, 1) for _ in range(dim - 1)], np.float32) if f == fid else np.full(dim, -7.0, np.float32) for f in (0, 1, 2)} for i in ids}
        g = stand_in_graph(np, Graph, adj, feats, r)
        of = lambda nodes: np.array([feats[int(i)][fid] if int(i) in feats else np.zeros(dim) for i in np.asarray(nodes).reshape(-1)], np.float32).reshape(-1, dim)
        batch = np.array([r.choice(ids) for _ in range(r.choice([1, 1, 2, 5, 17]))], dtype=np.int64)
        k1, k2 = r.choice([1, 2, 3, 5]), r.choice([1, 2, 3, 5])
        e1, e2 = r.choice([2, 3]), r.choice([2, 4])
        etype = r.choice([0, 1])
        enc1 = SageEncoder(lambda x: x.squeeze(0), None, dim, MeanAggregator(lambda x: x.squeeze(0)), k1, dim, e1, edge_type=etype)
        case.update(nodes=batch.tolist(), neighbours=(k1, k2))
        lonely = any(not adj[int(i)] for i in batch)
        ctx.count("sage repeated nodes", len(set(batch.tolist())) < len(batch))
        ctx.count("sage lonely nodes", lonely)
        ctx.count("sage batch of one", len(batch) == 1)

        def layer(own, neigh, w):
            return np.maximum(np.concatenate([own, neigh.reshape(len(own), -1, neigh.shape[-1]).mean(1)], 1) @ w, 0)

        if r.random() < 0.5:
            ctx.count("sage one layer")
            context = call("query of one layer", enc1.query, batch, g, np.float32, fid, dim, case=case)
            (asked, count, got), = g.asked
            ctx.expect(asked.tolist() == batch.tolist() and count == k1, "query of one layer", "neighbours of nodes %s asked %d times each for a batch of %s and %d" % (asked.tolist(), count, batch.tolist(), k1), case)
            want = {"node_feats": of(batch), "neighbor_feats": of(got), "node_count": len(batch)}
            for key, v in want.items():
                ctx.expect(key in context and np.asarray(context[key]).reshape(np.shape(v)).tolist() == np.asarray(v).tolist(), "features of one layer", "%s of nodes %s with neighbours %s are %s" % (key, batch.tolist(), got.tolist(), context.get(key)), case)
            out = call("embedding of one layer", enc1, ft.collate(context), case=case)
            ctx.expect(close(out, layer(of(batch), of(got), enc1.weight.a)), "embedding of one layer", "embeddings of %s with neighbours %s are %s" % (batch.tolist(), got.tolist(), raw(out).tolist()), case)
            return
        ctx.count("sage two layers")
        ctx.count("sage counts differ", k1 != k2)
        top = SageEncoder(lambda c: enc1(c).squeeze(0) if raw(enc1(c)).ndim > 2 else enc1(c), enc1.query, dim, MeanAggregator(lambda c: enc1(c)), k2, e1, e2, edge_type=etype)
        context = call("query of two layers", top.query, batch, g, np.float32, fid, dim, case=case)
        asked, count, first = g.asked[0]
        ctx.expect(asked.tolist() == batch.tolist() and count == k2, "query of two layers", "neighbours of nodes %s asked %d times each for a batch of %s and %d" % (asked.tolist(), count, batch.tolist(), k2), case)
        hop = {}
        for asked, count, got in g.asked[1:]:
            ctx.expect(count == k1, "query of two layers", "%d neighbours of neighbours asked instead of %d" % (count, k1), case)
            for node, row in zip(asked, got):
                hop.setdefault(int(node), []).append(row.tolist())
        near, far = context["node_feats"], context["neighbor_feats"]
        ctx.expect(close(near["node_feats"], of(batch)) and close(np.asarray(near["neighbor_feats"]).reshape(-1, dim), of(first)) and int(near["node_count"]) == len(batch), "features of two layers", "features of %s with neighbours %s are %s" % (batch.tolist(), first.tolist(), near), case)
        flat = first.reshape(-1)
        ctx.expect(close(far["node_feats"], of(flat)) and int(far["node_count"]) == len(flat), "features of two layers", "features of neighbours %s are %s" % (flat.tolist(), far["node_feats"]), case)
        rows = np.asarray(far["neighbor_feats"]).reshape(len(flat), -1, dim)
        ctx.expect(rows.shape[1] == k1, "features of two layers", "%d neighbours of each neighbour instead of %d" % (rows.shape[1], k1), case)
        for node, row in zip(flat, rows):
            seen = hop.get(int(node), [])
            ctx.expect(any(close(of(x), row) for x in seen), "features of two layers", "neighbours of neighbour %d have features %s, its neighbours are %s" % (node, row.tolist(), seen), case)
        out = call("embedding of two layers", top, ft.collate(context), case=case)
        w = enc1.weight.a
        want = layer(layer(of(batch), of(first), w), layer(of(flat), rows.reshape(-1, dim), w), top.weight.a)
        ctx.expect(close(out, want), "embedding of two layers", "embeddings of %s are %s, not %s" % (batch.tolist(), raw(out).tolist(), want.tolist()), case)

    def rows_of(x, i, n):
        """Part of the samples of one hop that belongs to node i of n."""
        k = len(x) // n
        return x[i * k : (i + 1) * k]

    def same_alone(r, case, what, enc, make, n, cut):
        """Embeddings in a batch and alone are the same."""
        whole = call(what, enc, make(None), case=case)
        a = np.asarray(raw(whole))
        ctx.expect(len(a) == n, what, "%d embeddings of %d nodes" % (len(a), n), case)
        for i in r.sample(range(n), min(n, 3)):
            one = np.asarray(raw(call(what + " of one node", enc, make(i), case=case)))
            ctx.expect(close(one.reshape(a[i].shape) if one.size == a[i].size else one, a[i]), what, "embedding of node %d in a batch of %d is %s and alone %s" % (i, n, a[i].tolist(), one.tolist()), case)
            ctx.expect(one.shape == (1,) + a[i].shape, what + " of one node", "shape %s for one node and %s for %d" % (one.shape, a.shape, n), case)
        ctx.count("encoder batch of one")

    def layers(r, case):
        n = r.choice([1, 2, 3, 8])
        rng = np.random.default_rng(r.randrange(1 << 30))
        which = r.choice(["lightgcn", "gat", "lgcl", "lgcl", "hetgnn", "hetgnn", "attention", "attention"])
        case.update(encoder=which, nodes=n)
        dim = r.choice([2, 3, 4])
        k = r.choice([1, 2, 4])
        if which == "lightgcn":
            ctx.count("lightgcn")
            own, nb = rng.normal(size=(n, dim)), rng.normal(size=(n * k, dim))
            enc = LightGCNEncoder()
            out = call("average of neighbours", enc, {consts.INPUTS: [Tensor(own), Tensor(nb)], consts.FANOUTS: [k]}, case=case)
            ctx.expect(close(out, (own + nb.reshape(n, k, dim).mean(1)) / 2), "average of neighbours", "embeddings are %s" % raw(out).tolist(), case)
            out = call("average of neighbours", enc, {consts.INPUTS: [Tensor(own)], consts.FANOUTS: []}, case=case)
            ctx.expect(close(out, own), "average of neighbours", "without neighbours embeddings are %s" % raw(out).tolist(), case)
        elif which == "gat":
            ctx.count("gat")
            x = rng.normal(size=(n, k + 1, dim))
            enc = GatEncoder(dim, r.choice([1, 3]), act=r.choice([None, lk]))
            same_alone(r, case, "attention over neighbours", enc, lambda i: Tensor(x if i is None else x[i : i + 1]), n, None)
            whole = np.asarray(raw(enc(Tensor(x))))
            y = x.copy()
            i, j = r.randrange(n), r.randrange(k + 1)
            y[i, j] += 0.5
            moved = np.asarray(raw(enc(Tensor(y))))
            ctx.expect(not close(moved[i], whole[i]), "attention over neighbours", "embedding of node %d does not change with place %d of its neighbours" % (i, j), case)
            ctx.count("neighbours moved")
        elif which == "lgcl":
            ctx.count("lgcl")
            hops = r.choice([1, 2])
            ctx.count("lgcl deeper", hops > 1)
            residual = r.choice([consts.MODEL_RESIDUAL_ADD, consts.MODEL_RESIDUAL_CONCAT])
            fan = [r.choice([2, 3, 4]) for _ in range(hops)]
            top = [r.randint(1, f) for f in fan]
            hidden = [r.choice([dim, dim, dim + 2]) for _ in range(hops)]
            xs = [rng.normal(size=(n, dim))]
            for f in fan:
                xs.append(rng.normal(size=(len(xs[-1]) * f, dim)))
            enc = LgclEncoder(dim, top, hidden, residual, [lk] * hops)
            case.update(fanouts=fan, largest=top, hidden=hidden, residual=residual)
            make = lambda i: {consts.INPUTS: [Tensor(x if i is None else rows_of(x, i, n)) for x in xs], consts.FANOUTS: fan}
            same_alone(r, case, "largest values of neighbours", enc, make, n, None)
            wide = np.asarray(raw(enc(make(None)))).shape[-1]
            ctx.expect(wide == hidden[-1], "largest values of neighbours", "embeddings have %d values instead of %d" % (wide, hidden[-1]), case)
        elif which == "hetgnn":
            ctx.count("hetgnn")
            kinds = r.choice([0, 1, 2, 3])
            out = 2 * r.choice([1, 2])
            dims = r.choice([dim, out])
            fans = [[r.choice([1, 2, 4])] for _ in range(kinds)]
            own = [rng.normal(size=(n, dims))]
            others = [[rng.normal(size=(n * f[0], dims))] for f in fans]
            made = None
            if kinds and r.random() < 0.4:
                # Encoders given by the caller, one for each kind.
                ctx.count("hetgnn with own encoders")
                out = dims
                made = [LightGCNEncoder() for _ in fans]
            enc = HetGnnEncoder(dims, r.choice([[out], [out + 3, out]]), fans, made, [lk])
            case.update(fanouts=fans, dims=(dims, out), encoders=bool(made))
            make = lambda i: {consts.INPUTS: [[Tensor(x if i is None else rows_of(x, i, n)) for x in xs] for xs in [own] + others]}
            same_alone(r, case, "kinds of neighbours", enc, make, n, None)
            whole = np.array(raw(enc(make(None))))
            ctx.expect(whole.shape[-1] == out, "kinds of neighbours", "embeddings have %d values instead of %d" % (whole.shape[-1], out), case)
            for xs in [own] + others:
                at = r.randrange(len(xs[0]))
                keep = xs[0][at].copy()
                xs[0][at] += 0.5
                moved = np.array(raw(enc(make(None))))
                xs[0][at] = keep
                mine = at // (len(xs[0]) // n)
                for j in range(n):
                    ctx.expect(close(moved[j], whole[j]) == (j != mine), "kinds of neighbours", "embedding of node %d %s with a neighbour of node %d" % (j, "changed" if j != mine else "does not change", mine), case)
                ctx.count("neighbours moved")
        else:
            n = r.choice([2, 4, 7])
            heads, out = r.choice([1, 2]), r.choice([2, 3])
            how = r.choice(["concat", "average"])
            adj = (rng.random((n, n)) < 0.4).astype(float)
            np.fill_diagonal(adj, 1)
            x = rng.normal(size=(n, dim))
            enc = GATConv(dim, out, heads, attn_aggregate=how)
            enc.eval()
            case.update(nodes=n, heads=heads, aggregate=how, adjacency=adj.tolist())
            where = np.array(np.nonzero(adj))
            dense = raw(call("attention layer", enc, Tensor(x), Tensor(adj), case=case))
            ctx.count("attention")
            ctx.expect(dense.shape == (n, out * (heads if how == "concat" else 1)), "attention layer", "shape %s" % (dense.shape,), case)
            if how == "concat" and heads == 2:
                ctx.expect(not close(dense[:, :out], dense[:, out:]), "attention layer", "both heads have the same values", case)
            sparse = raw(call("attention layer on a sparse matrix", enc, Tensor(x), torch.sparse_coo_tensor(where, np.ones(where.shape[1]), (n, n)), case=case))
            ctx.count("attention sparse")
            ctx.expect(close(dense, sparse), "attention layer on a sparse matrix", "sparse and dense matrices give %s and %s" % (sparse.tolist(), dense.tolist()), case)
            i = r.randrange(n)
            y = x.copy()
            y[i] += 1
            moved = raw(enc(Tensor(y), Tensor(adj)))
            for j in range(n):
                ctx.expect(close(moved[j], dense[j]) if not adj[j, i] else True, "attention layer", "embedding of %d changed with node %d that it has no edge to" % (j, i), case)

    # ---- text

    PIECES = ["a", "Bc", "hello", "world", "x1", "42", "naive", "naïve", "über", "日本", "\U0001f600", "é", "don't", "a-b", "...", "", "LONGWORDINDEED", "İ", " ", "#"]

    def text(r):
        words = [r.choice(PIECES) for _ in range(r.choice([0, 1, 2, 4, 9]))]
        return r.choice(["", " ", "\t"]) + r.choice([" ", " ", "  "]).join(words) + r.choice(["", " ", "\n", "\0"])

    def letters(s):
        """Words of a text: letters and digits, parted by spaces."""
        keep = "".join(c for c in s.lower() if c.isascii() and (c.isalnum() or c == " "))
        return keep.split() or [""]

    def grams(s, vocab, length, most):
        seq, mask = [], []
        for w in letters(s)[:length]:
            w = "#" + (w or "#") + "#"
            ids = [vocab.get(w[j : j + 3], 0) for j in range(min(len(w) - 2, most))]
            seq += ids + [0] * (most - len(ids))
            mask.append(1)
        return seq + [0] * (length * most - len(seq)), mask + [0] * (length - len(mask))

    def tokens(s, words, length):
        ids = [words.get(w, 1) for w in s.split()][:length]
        return ids + [0] * (length - len(ids)), [1] * len(ids) + [0] * (length - len(ids))

    def encoder(r, feature_type, name, poolers=1):
        folder = ctx.scratch
        tri = r.random() < 0.6
        length, most, chars = r.choice([1, 3, 6]), r.choice([2, 5, 8]), r.choice([4, 9, 16, 33])
        vocab_file = "%s.txt" % name
        if tri:
            pool = sorted({("#" + w + "#")[j : j + 3] for p in PIECES for w in letters(p) + ["hi"] for j in range(len(w))} | {"###", "#", "o#", "d#", "1#", "2#", "##"})
            pool = [p for p in pool if r.random() < 0.8]
        else:
            pool = ["[pad]", "[unk]", "[a]", "[b]"] + sorted({w for p in PIECES for w in p.split()})
        r2 = random.Random(0)
        if tri:
            r2.shuffle(pool)
            if r.random() < 0.5:
                pool.insert(len(pool) // 2, "")
        with open(os.path.join(folder, vocab_file), "w", encoding="utf-8", newline=r.choice(["\n", "\r\n"]) if tri else "\n") as f:
            f.write("".join(p + "\n" for p in pool))
        config = {
            consts.MAX_SEQ_LEN: length, consts.MAX_SENT_CHARS: chars, consts.DOWNSCALE: r.choice([0, 3]), consts.META_DIR: folder, consts.VOCAB_FILE: vocab_file,
            consts.EMBEDDING_TYPE: consts.TRILETTER if tri else "wordpiece", consts.TRILETTER_MAX_LETTERS_IN_WORD: most,
            "hidden_size": 4, "vocab_size": len(pool) + 2, "max_position_embeddings": length, "pooler_type": "weightpooler",
        }
        if tri:
            vocab = {p: i + 1 for i, p in enumerate(pool) if p}
            expect = lambda s: grams(s, vocab, length, most)
        else:
            words = {p: i for i, p in enumerate(pool)}
            expect = lambda s: tokens(s, words, length)
        return config, expect, tri

    def shape_of(r):
        return r.choice([(1,), (3,), (5,), (2, 1), (2, 3), (1, 4)])

    def textual(r, case):
        config, expect, tri = encoder(r, np.uint8, "vocab%d" % r.randrange(3))
        enc = call("text encoder", TwinBERTFeatureEncoder, np.uint8, config, 2, case=case)
        chars = config[consts.MAX_SENT_CHARS]
        ctx.expect(enc.feature_dim == chars, "text encoder", "features have %s values instead of %d" % (enc.feature_dim, chars), case)
        case.update(triletter=tri, chars=chars, length=config[consts.MAX_SEQ_LEN])
        table = {}

        def block(shape, dim):
            out = np.zeros(shape + (dim,), r.choice([np.uint8, np.uint8, np.int8]))
            said = np.empty(shape, object)
            for at in np.ndindex(*shape):
                s = text(r)
                b = s.encode("utf-8")
                cut = b[:dim]
                out[at][: len(cut)] = np.frombuffer(cut, out.dtype)
                # What a reader of the cut text sees.
                clean = cut.decode("utf-8", "ignore")
                said[at] = clean.strip("\0 \t\n")
                ctx.count("text")
                ctx.count("text cut in a character", len(clean.encode("utf-8")) < len(cut))
                ctx.count("text with other letters", not clean.isascii())
                ctx.count("text empty", not said[at])
            return out, said

        context, want = {}, {}
        for i in range(r.choice([1, 2])):
            shape = shape_of(r)
            ctx.count("text in a grid", len(shape) > 1)
            data, said = block(shape, r.choice([chars, chars, 0]))
            place = context
            path = ["f%d" % i]
            if r.random() < 0.4:
                ctx.count("text nested")
                place = context.setdefault("inner", {}).setdefault("deep", {})
                path = ["inner", "deep"] + path
            place[path[-1]] = data
            want[tuple(path)] = (shape, said)
        other = np.arange(3, dtype=np.float32)
        context["other"] = other
        case.update(texts={"/".join(k): v[1].tolist() for k, v in want.items()})
        call("text to tokens", enc.transform, context, case=case)
        ctx.expect(context["other"] is other, "text to tokens", "values that are not text were changed", case)

        def get(path):
            c = context
            for p in path:
                c = c[p]
            return c

        seqs = {}
        for path, (shape, said) in want.items():
            got = get(path)
            ctx.expect(isinstance(got, dict), "text to tokens", "text stays as it is: %r" % (got,), case)
            seq, mask = np.asarray(got[consts.ENCODER_SEQ]), np.asarray(got[consts.ENCODER_MASK])
            ctx.expect(seq.shape[:-1] == shape and mask.shape[:-1] == shape, "text to tokens", "shapes %s and %s for texts of shape %s" % (seq.shape, mask.shape, shape), case)
            for at in np.ndindex(*shape):
                s, m = expect(said[at])
                ctx.expect(seq[at].tolist() == s and mask[at].tolist() == m, "text to tokens", "text %r at %s has tokens %s and mask %s, not %s and %s" % (said[at], at, seq[at].tolist(), mask[at].tolist(), s, m), case)
            seqs[path] = (seq.copy(), mask.copy())
            got[consts.ENCODER_SEQ], got[consts.ENCODER_MASK] = Tensor(seq), Tensor(mask)
        enc.eval()
        pool = r.choice([0, 1])
        call("embedding of text", enc, context, pool, case=case)
        for path, (shape, said) in want.items():
            out = raw(get(path))
            ctx.count("text embedded")
            ctx.expect(out.shape == shape + (enc.embed_dim,), "embedding of text", "shape %s for texts of shape %s" % (out.shape, shape), case)
            # Pooler of nested text is the first one in the code as it is.
            p = pool if len(path) == 1 else None
            for at in r.sample(list(np.ndindex(*shape)), 1):
                one = [{"x": {consts.ENCODER_SEQ: Tensor(seqs[path][0][at][None]), consts.ENCODER_MASK: Tensor(seqs[path][1][at][None])}} for _ in range(2)]
                for q, c in enumerate(one):
                    enc(c, q)
                hits = [close(raw(c["x"])[0], out[at]) for c in one]
                ctx.expect(any(hits) if p is None else hits[p], "embedding of text", "embedding of %r at %s is %s and alone %s" % (said[at], at, out[at].tolist(), [raw(c["x"]).tolist() for c in one]), case)

    def given(r, case):
        config, expect, tri = encoder(r, np.int64, "given%d" % r.randrange(3))
        enc = call("token encoder", TwinBERTFeatureEncoder, np.int64, config, case=case)
        length = config[consts.MAX_SEQ_LEN]
        per = config[consts.TRILETTER_MAX_LETTERS_IN_WORD] if tri else 1
        ctx.expect(enc.feature_dim == length * (per + 1), "token encoder", "features have %s values instead of %d" % (enc.feature_dim, length * (per + 1)), case)
        shape = shape_of(r)
        ctx.count("tokens given")
        ctx.count("tokens given in a grid", len(shape) > 1)
        seq = np.random.default_rng(r.randrange(1 << 30)).integers(0, 5, shape + (length * per,))
        mask = np.broadcast_to(np.arange(length), shape + (length,)).copy()
        both = np.concatenate([seq, mask], -1).astype(np.int64)
        case.update(shape=shape, length=length, per=per)
        context = {"a": {"f": both}}
        call("given tokens", enc.transform, context, case=case)
        got = context["a"]["f"]
        ctx.expect(np.array_equal(got[consts.ENCODER_SEQ], seq) and np.array_equal(got[consts.ENCODER_MASK], mask), "given tokens", "tokens %s and mask %s become %s" % (seq.tolist(), mask.tolist(), got), case)

    def typed(r, case):
        config, expect, tri = encoder(r, np.int64, "typed%d" % r.randrange(3))
        config[consts.DOWNSCALE] = 3
        names = ["k", "q", "s"][: r.choice([1, 2, 3])]
        share = r.random() < 0.5
        enc = call("encoder by type", MultiTypeFeatureEncoder, np.int64, config, names, share, case=case)
        enc.eval()
        length = config[consts.MAX_SEQ_LEN]
        per = config[consts.TRILETTER_MAX_LETTERS_IN_WORD] if tri else 1
        rng = np.random.default_rng(r.randrange(1 << 30))
        kinds = [[r.choice(names) for _ in range(r.choice([1, 2]))] for _ in range(r.choice([1, 2, 3]))]
        sizes = [[r.choice([1, 2, 5]) for _ in k] for k in kinds]
        seqs = [[rng.integers(0, 4, (1, n, length * per)) for n in row] for row in sizes]
        masks = [[np.ones((1, n, length), np.int64) for n in row] for row in sizes]
        context = {consts.ENCODER_SEQ: [[Tensor(x) for x in row] for row in seqs], consts.ENCODER_MASK: [[Tensor(x) for x in row] for row in masks], consts.ENCODER_TYPES: kinds}
        case.update(types=kinds, sizes=sizes, share=share)
        call("embedding by type", enc, context, case=case)
        out = context[consts.EMBS_LIST]
        ctx.count("types embedded")
        ctx.expect([len(x) for x in out] == [len(k) for k in kinds], "embedding by type", "%s embeddings for types %s" % ([len(x) for x in out], kinds), case)
        for i, row in enumerate(kinds):
            for j, kind in enumerate(row):
                inner = enc.get_feature_encoder(kind)
                vals = raw(out[i][j])
                ctx.expect(vals.shape == (sizes[i][j], 3), "embedding by type", "shape %s for %d texts" % (vals.shape, sizes[i][j]), case)
                at = r.randrange(sizes[i][j])
                one = raw(inner.encoder(Tensor(seqs[i][j][0][at : at + 1]), Tensor(masks[i][j][0][at : at + 1]), names.index(kind) if share else 0))
                ctx.expect(close(one[0], vals[at]), "embedding by type", "text %d of type %s has embedding %s and alone %s" % (at, kind, vals[at].tolist(), one[0].tolist()), case)

    # ---- models

    class Model(BaseSupervisedModel):
        def get_score(self, context):
            return context["scores"].squeeze(0) if isinstance(context, dict) else self.scores

    def supervised(r, case):
        classes = r.choice([2, 3, 7])
        rng = np.random.default_rng(r.randrange(1 << 30))
        m = call("model", Model, np.float32, 0, 4, None, case=case)
        m.metric = r.choice([metrics.Accuracy, metrics.F1Score])()
        preds, labels, want = [], [], []
        sizes = [r.choice([1, 2, 6]) for _ in range(r.choice([2, 3]))]
        case.update(sizes=sizes, classes=classes)
        for n in sizes:
            scores = rng.normal(size=(n, classes))
            truth = rng.integers(0, classes, n)
            context = ft.collate({"label": np.eye(classes, dtype=np.float32)[truth], "scores": scores})
            ctx.count("supervised")
            ctx.count("supervised batch of one", n == 1)
            loss, pred, label = call("step of a model", m, context, case=case)
            z = np.log(np.exp(scores).sum(1)) - scores[np.arange(n), truth]
            ctx.expect(close(loss, z.mean()), "step of a model", "loss %s instead of %s" % (loss, z.mean()), case)
            ctx.expect(raw(pred).tolist() == scores.argmax(1).tolist() and raw(label).tolist() == truth.tolist(), "step of a model", "predictions %s and labels %s instead of %s and %s" % (raw(pred).tolist(), raw(label).tolist(), scores.argmax(1).tolist(), truth.tolist()), case)
            preds.append(pred)
            labels.append(label)
            want += (scores.argmax(1) == truth).tolist()
        got = call("metric of a model", m.compute_metric, preds, labels, case=case)
        name = call("metric of a model", m.metric_name, case=case)
        ctx.expect(name == m.metric.name(), "metric of a model", "%r is the name of metric %r" % (name, m.metric.name()), case)
        ctx.expect(close(got, np.mean(want)), "metric of a model", "%s is %s, %d of %d are right" % (m.metric_name(), got, sum(want), len(want)), case)

    def measures(r, case):
        rng = np.random.default_rng(r.randrange(1 << 30))
        n, k = r.choice([1, 2, 9]), r.choice([2, 3, 8])
        scores = np.array([rng.permutation(50)[:k] / 7.0 for _ in range(n)])
        hit = rng.integers(0, k, n)
        labels = np.eye(k)[hit]
        for up in (False, True):
            metric = metrics.MRR(rank_in_ascending_order=True) if up else r.choice([metrics.MRR(), metrics.MRR(rank_in_ascending_order=False)])
            s = scores if up else -scores
            want = np.mean([1.0 / (1 + (row < row[h]).sum()) for row, h in zip(s, hit)])
            ctx.count("metrics")
            m = BaseModel(np.float32, 0, 1, None)
            m.metric = metric
            parts = r.choice([1, n])
            got = call("reciprocal rank", m.compute_metric, [Tensor(x) for x in np.array_split(scores, parts)], [Tensor(x) for x in np.array_split(labels, parts)], case=case)
            ctx.expect(close(got, want), "reciprocal rank", "%s of scores %s with right answers %s is %s, not %s" % ("ascending" if up else "descending", scores.tolist(), hit.tolist(), got, want), case)
        x = np.array(rng.permutation(40)[: n + 4] / 3.0)
        y = np.array([0, 1] + rng.integers(0, 2, n + 2).tolist())
        pos, neg = x[y == 1], x[y == 0]
        want = np.mean([float(p > q) for p in pos for q in neg])
        got = call("area under the curve", metrics.ROC().compute, Tensor(x), Tensor(y), case=case)
        ctx.expect(close(got, want), "area under the curve", "%s, not %s" % (got, want), case)

    def lines(r, case):
        rng = np.random.default_rng(r.randrange(1 << 30))
        n, dim = r.choice([1, 2, 7]), r.choice([1, 3])
        ids = rng.integers(0, 1 << 62, n)
        emb = (rng.normal(size=(n, dim)) * 10.0 ** rng.integers(-9, 9, (n, dim))).astype(np.float32)
        m = BaseUnsupervisedModel(np.float32, 0, 1, None)
        out = io.StringIO()
        context = ft.collate({"inputs": ids}) if r.random() < 0.5 else ft.collate(ids)
        call("embeddings as text", m.output_embedding, out, context, Tensor(emb), case=case)
        got = out.getvalue().split("\n")
        ctx.expect(got[-1] == "" and len(got) == n + 1, "embeddings as text", "%d lines for %d nodes" % (len(got) - 1, n), case)
        for line, i, e in zip(got, ids, emb):
            ctx.count("embedding lines")
            cols = line.split(" ")
            ctx.expect(int(cols[0]) == i and np.array([np.float32(c) for c in cols[1:]], np.float32).tolist() == e.tolist(), "embeddings as text", "node %d with %s is written as %r" % (i, e.tolist(), line), case)

    def fetched(r, case):
        """Text of nodes through the query of a model and into tokens."""
        config, expect, tri = encoder(r, np.uint8, "fetched%d" % r.randrange(3))
        chars = config[consts.MAX_SENT_CHARS]
        ids = list(range(1, 8))
        said = {i: text(r) + text(r) for i in ids}
        feats = {i: {0: np.frombuffer(said[i].encode("utf-8"), np.uint8)} for i in ids}
        adj = {i: [r.choice(ids) for _ in range(2)] for i in ids}
        g = stand_in_graph(np, Graph, adj, feats, r)
        enc = TwinBERTFeatureEncoder(np.uint8, config)
        sage = SageEncoder(lambda x: x, None, chars, MeanAggregator(lambda x: x), 2, 4, 3)
        nodes = np.array([r.choice(ids) for _ in range(3)], dtype=np.int64)
        case.update(nodes=nodes.tolist(), texts=said, chars=chars)
        m = BaseModel(np.uint8, 0, 1, enc)
        ctx.expect(m.feature_dim == chars, "text of nodes", "a model asks for %s values of text of %d" % (m.feature_dim, chars), case)
        context = call("text of nodes", sage.query, nodes, g, m.feature_type, m.feature_idx, m.feature_dim, case=case)
        call("text of nodes", m.transform, context, case=case)
        near = g.asked[0][2].reshape(-1)
        if r.random() < 0.5:
            # The model hands data on to its encoder, which embeds the text of each node.
            data = {k: {consts.ENCODER_SEQ: Tensor(np.array(context[k][consts.ENCODER_SEQ])), consts.ENCODER_MASK: Tensor(np.array(context[k][consts.ENCODER_MASK]))} for k in ("node_feats", "neighbor_feats")}
            other = {k: dict(v) for k, v in data.items()}
            m.eval()
            call("text of nodes", m.encode_feature, data, case=case)
            enc(other)
            for k in data:
                ctx.expect(not isinstance(data[k], dict) and close(raw(data[k]), raw(other[k])), "text of nodes", "a model embeds text as %s and its encoder as %s" % (data[k], other[k]), case)
            ctx.count("features encoded by a model")
        for key, who in (("node_feats", nodes), ("neighbor_feats", near)):
            for row, node in enumerate(who):
                cut = said[int(node)].encode("utf-8")[:chars]
                ctx.count("features fetched cut", len(cut) == chars)
                s, mask = expect(cut.decode("utf-8", "ignore").strip("\0 \t\n"))
                ctx.expect(np.asarray(context[key][consts.ENCODER_SEQ])[row].tolist() == s and np.asarray(context[key][consts.ENCODER_MASK])[row].tolist() == mask, "text of nodes", "node %d with text %r has tokens %s" % (node, cut, np.asarray(context[key][consts.ENCODER_SEQ])[row].tolist()), case)

    def restored(r, case):
        """Encoders that start from saved weights embed like the encoder that was saved."""
        config, expect, tri = encoder(r, np.int64, "restored%d" % r.randrange(3))
        length = config[consts.MAX_SEQ_LEN]
        per = config[consts.TRILETTER_MAX_LETTERS_IN_WORD] if tri else 1
        olds = [TwinBERTEncoder(config), TwinBERTEncoder(config)]
        form = r.choice(["own", "query", "document", "bert"])
        case.update(form=form, triletter=tri, downscale=config[consts.DOWNSCALE])
        state = olds[0].state_dict()
        config = dict(config)
        if form in ("query", "document"):
            prefix = r.choice(["twinbert", "module.twinbert"])
            state = {}
            for letter, old in zip("qk", olds):
                for k, v in old.state_dict().items():
                    for a, b in (("bert_encoder", "bert_sentencoder"), ("poolers.0", "pooler"), ("downscale", "downscale")):
                        if k.startswith(a):
                            state["%s.%s%s%s" % (prefix, letter, b, k[len(a):])] = v
            config.update(init_ckpt_prefix=prefix, is_query=form == "query")
        elif form == "bert":
            prefix = r.choice(["bert", "model.encoder"])
            state = {prefix + k[len("bert_encoder"):]: v for k, v in state.items() if k.startswith("bert_encoder")}
            config["init_ckpt_prefix"] = prefix
        # A model that was saved by a trainer has a name in front of all others.
        lead = "" if form == "own" else r.choice(["", "module.", "net.part."])
        items = [(lead + k, v) for k, v in state.items()]
        r.shuffle(items)
        path = os.path.join(ctx.scratch, "restored.pt")
        torch.save(dict(items), path)
        if r.random() < 0.5:
            config["init_ckpt_file"] = path
            new = call("saved weights", TwinBERTEncoder, config, case=case)
        else:
            if r.random() < 0.5:
                config["init_ckpt_file"] = os.path.join(ctx.scratch, "missing.pt")
            new = call("saved weights", TwinBERTEncoder, config, path, case=case)
        ctx.count("encoders restored")
        old = olds[1 if form == "document" else 0]
        seq = Tensor(np.random.default_rng(r.randrange(1 << 30)).integers(0, 5, (3, length * per)))
        mask = Tensor(np.ones((3, length), dtype=np.int64))
        for m in (old, new):
            m.eval()
        got = call("embedding after saved weights", new, seq, mask, output_encoded_layer=True, case=case)
        want = old(seq, mask, output_encoded_layer=True)
        ctx.expect(close(raw(got[1]), raw(want[1])), "saved weights", "words are embedded as %s instead of %s" % (raw(got[1]).tolist(), raw(want[1]).tolist()), case)
        if form != "bert":
            ctx.expect(close(raw(got[0]), raw(want[0])), "saved weights", "text is embedded as %s instead of %s" % (raw(got[0]).tolist(), raw(want[0]).tolist()), case)
        else:
            ctx.expect(raw(got[0]).shape == raw(want[0]).shape, "saved weights", "text is embedded in shape %s instead of %s" % (raw(got[0]).shape, raw(want[0]).shape), case)

    def chosen(r, case):
        """Encoders made from arguments of a command."""
        config, expect, tri = encoder(r, np.uint8, "chosen%d" % r.randrange(3))
        config[consts.DOWNSCALE] = 3
        folder = config.pop(consts.META_DIR)
        with open(os.path.join(folder, "encoder.json"), "w", encoding="utf-8") as f:
            json.dump(config, f)
        kind, dtype = r.choice([("binary", np.uint8), ("Binary", np.uint8), ("uint64", np.int64)])
        args = argparse.Namespace(meta_dir=folder, featenc_config="encoder.json", fp16=False, feature_type=kind)
        many = r.random() < 0.5
        if many:
            args.src_encoders, args.dst_encoders, args.share_encoder = [["q"], ["q", "k"]], [["s"]], r.random() < 0.5
        lacking = r.random() < 0.2
        if lacking:
            setattr(args, r.choice(["meta_dir", "featenc_config"]), r.choice(["", None]))
        case.update(arguments=str(vars(args)), triletter=tri)
        got = call("encoder from arguments", get_feature_encoder, args, case=case)
        ctx.count("encoders from arguments")
        if lacking:
            ctx.expect(got is None, "encoder from arguments", "an encoder without its file: %r" % (got,), case)
            return
        enc = got[0] if many else got
        length = config[consts.MAX_SEQ_LEN]
        per = config[consts.TRILETTER_MAX_LETTERS_IN_WORD] if tri else 1
        dim = config[consts.MAX_SENT_CHARS] if dtype == np.uint8 else length * (per + 1)
        ctx.expect(enc.feature_dim == dim and np.dtype(enc.feature_type) == dtype, "encoder from arguments", "features are %s values of %s instead of %d of %s" % (enc.feature_dim, enc.feature_type, dim, np.dtype(dtype)), case)
        if many:
            ctx.expect(sorted(enc.encoder_types if hasattr(enc, "encoder_types") else "kqs") == ["k", "q", "s"], "encoder from arguments", "encoders are made for other types", case)
            ctx.expect(got[1][consts.MAX_SEQ_LEN] == length, "encoder from arguments", "settings are %s" % (got[1],), case)
        elif dtype == np.uint8:
            said = "hi 12"[: config[consts.MAX_SENT_CHARS]]
            data = np.zeros((1, config[consts.MAX_SENT_CHARS]), np.uint8)
            data[0, : len(said)] = np.frombuffer(said.encode(), np.uint8)
            context = {"t": data}
            call("encoder from arguments", enc.transform, context, case=case)
            s, m = expect(said.strip())
            ctx.expect(np.asarray(context["t"][consts.ENCODER_SEQ])[0].tolist() == s, "encoder from arguments", "text %r has tokens %s instead of %s" % (said, np.asarray(context["t"][consts.ENCODER_SEQ])[0].tolist(), s), case)

    def examples(r, case):
        """Positive and negative examples of a model without labels."""
        ids = list(range(1, 9))
        adj = {i: [r.choice(ids) for _ in range(r.choice([1, 2, 3]))] for i in ids}
        g = stand_in_graph(np, Graph, adj, {}, r)
        with_types, seen = r.random() < 0.5, []

        def sample_nodes(size, node_types=None, strategy=None, *args, **kwargs):
            out = np.array([r.choice(ids) for _ in range(size)], dtype=np.int64)
            seen.append((size, node_types, out))
            return (out, np.full(size, 9, dtype=np.int32)) if with_types else out

        g.sample_nodes = sample_nodes
        m = BaseUnsupervisedModel(np.float32, 0, 4, None)
        kind = r.choice([0, 2, np.array([1, 3], dtype=np.int32)])
        count = r.choice([1, 3, 5])
        case.update(count=count, types=str(kind), with_types=with_types)
        got = call("negative examples", m.get_neg_node, g, count, kind, case=case)
        ctx.expect(len(seen) == 1 and np.array_equal(np.asarray(got), seen[0][2]), "negative examples", "negative examples are %s and sampled %s" % (got, seen), case)
        ctx.expect(seen[0][0] == count and np.array_equal(np.asarray(seen[0][1]), np.asarray(kind)), "negative examples", "%s nodes of type %s are sampled" % seen[0][:2], case)
        nodes = np.array([r.choice(ids) for _ in range(r.choice([1, 4]))], dtype=np.int64)
        got = call("positive examples", m.get_pos_node, g, nodes, 0, *([count] if r.random() < 0.7 else []), case=case)
        asked = g.asked[-1]
        ctx.expect(np.array_equal(asked[0], nodes) and np.array_equal(np.asarray(got), asked[2]) and (asked[1] in (1, count)), "positive examples", "positive examples of %s are %s and sampled %s" % (nodes, got, asked), case)
        ctx.count("examples")

    kinds = [sage, sage, sage, sage, layers, layers, layers, textual, textual, given, typed, supervised, measures, lines, fetched, restored, chosen, examples]
    for n in range(job["cases"]):
        for i, fn in enumerate(kinds):
            r = ctx.rng(job["name"], n, i)
            fakenn.RNG[0] = np.random.default_rng(r.randrange(1 << 30))
            case = {"kind": fn.__name__, "n": n}
            ctx.at({"op": fn.__name__, "case": case})
            try:
                with ctx.trial():
                    fn(r, case)
            except (ft.Gap, fakenn.Lacks) as e:
                raise RuntimeError("the stand-in of torch lacks %s" % e) from None
            ctx.case((job["name"], n, i), True, {k: str(v)[:60] for k, v in case.items()} if n < 2 else None)
