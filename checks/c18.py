"""Batch samplers: every element of the source once per epoch over all workers and shards."""
import collections
import os

import numpy as np

LEVEL = "exploration"
RULE = "one case is one source with one sampler configuration, iterated by all its workers and shards; it is nontrivial when at least one element was delivered, and distinct by source size and configuration"
ASSUMPTIONS = [
    "sources of up to a few hundred elements, up to 5 workers and 5 shards",
    "shards of one shuffled source use the same random seed, as only then they see the same order",
    "a worker or source without elements may raise or deliver nothing, but never a batch of padding only",
    "the reported length of one of several shards may differ by one from the number of its batches",
]
NEED = {
    "elements": 20000,
    "padded_batches": 200,
    "dropped_elements": 50,
    "shuffled_epochs": 100,
    "multi_worker": 100,
    "multi_shard": 100,
    "second_iterations": 300,
    "through_dataset": 100,
    "through_loader_workers": 100,
    "graph_batches": 300,
}

KINDS = ["node", "edge", "edgefeat", "tuple", "tuple2", "range", "rangeedge", "csv", "text", "genode", "geedge"]


def plan(tier, seed):
    n, k = (6, 600) if tier == "quick" else (12, 4000)
    return [{"name": "s%d" % i, "cases": k} for i in range(n)]


def run(job, ctx):
    r = ctx.rng(job["name"])
    state = {"orders": 0, "sorted": 0, "pairs": 0, "same": 0}
    for k in range(job["cases"]):
        folder = os.path.join(ctx.scratch, "c%d" % k)
        os.makedirs(folder)
        kind = KINDS[k % len(KINDS)]
        with ctx.trial():
            if kind.startswith("ge"):
                graph_case(ctx, r, kind)
            else:
                Case(ctx, r, kind, folder, state).run()
        for f in os.listdir(folder):
            os.remove(os.path.join(folder, f))
        os.rmdir(folder)
    ctx.count("shuffled_epochs", state["orders"])
    if state["orders"] >= 20 and state["sorted"] > state["orders"] / 4:
        ctx.violation("shuffling keeps the order of the source", "%d of %d shuffled epochs" % (state["sorted"], state["orders"]))
    if state["pairs"] >= 20 and state["same"] > state["pairs"] / 4:
        ctx.violation("epochs are not shuffled anew", "%d of %d pairs of epochs" % (state["same"], state["pairs"]))


def size(r):
    return r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 24, 30, 31, 48, 60, 61, 100, 128, 150])


def distinct(r, n):
    top = r.choice([2 * n + 5, 1000, 2**31 + 1000, 2**40, 2**62])
    low = r.choice([1, 1, 1, -top])
    res = set()
    while len(res) < n:
        x = r.randint(low, top + n)
        if x not in (-1, -77, 0, 2**50 + 1):
            res.add(x)
    res = list(res)
    r.shuffle(res)
    return res


class Case:
    def __init__(self, ctx, r, kind, folder, state):
        self.ctx, self.r, self.kind, self.folder, self.state = ctx, r, kind, folder, state
        self.n = size(r)
        self.cfg = {
            "kind": kind,
            "size": self.n,
            "batch": r.choice([1, 2, 3, 4, 5, 6, 7, 8, 13, 16, 50, 200]),
            "epochs": r.choice([1, 1, 1, 2, 3]),
            "shuffle": r.random() < 0.35,
            "drop_last": r.random() < 0.3,
            "workers": r.choice([1, 1, 2, 3, 5]),
            "shards": r.choice([1, 1, 2, 3, 5]),
            "backfill": r.choice([-1, -77, 2**50 + 1, 0]),
            "dataset": r.random() < 0.4,
            "torch": r.random() < 0.5,
            "setter": r.random() < 0.15,
        }
        if kind in ("range", "rangeedge"):
            self.cfg.update(epochs=1, shuffle=False, drop_last=False)
        if kind == "csv":
            self.cfg.update(shuffle=False, drop_last=False, workers=1)
        if kind == "text":
            self.cfg.update(setter=False, backfill="")
        if self.cfg["dataset"]:
            self.cfg["setter"] = False
        self.rowlen = 1
        getattr(self, "make_" + kind)()

    # ---- sources: self.parts = elements per worker (None: unknown split), self.build(worker, shard kw)

    def spread(self, items, line):
        """Write items into files; returns glob and the items of each worker."""
        cfg, r = self.cfg, self.r
        files = cfg["workers"] + r.choice([0, 0, 1, 3])
        cut = [[] for _ in range(files)]
        for x in items:
            cut[r.randrange(files)].append(x)
        names = ["part_%d" % i if files < 10 else "part_%02d" % i for i in range(files)]
        for name, part in zip(names, cut):
            text = "\n".join(line(x) for x in part)
            if part and r.random() < 0.7:
                text += "\n"
            with open(os.path.join(self.folder, name + ".txt"), "w") as f:
                f.write(text)
        with open(os.path.join(self.folder, "other.csv"), "w") as f:
            f.write("99\n98\n")
        self.parts = [[x for p in cut[w :: cfg["workers"]] for x in p] for w in range(cfg["workers"])]
        self.items = list(items)
        return os.path.join(self.folder, "part_*.txt")

    def single(self, items, line):
        cfg = self.cfg
        path = os.path.join(self.folder, "data.txt")
        text = "\n".join(line(x) for x in items)
        if items and self.r.random() < 0.7:
            text += "\n"
        with open(path, "w") as f:
            f.write(text)
        self.items = list(items)
        self.parts = [self.items[w :: cfg["workers"]] for w in range(cfg["workers"])]
        return path

    def common(self):
        cfg = self.cfg
        return dict(batch_size=cfg["batch"], epochs=cfg["epochs"], shuffle=cfg["shuffle"], drop_last=cfg["drop_last"])

    def make_node(self):
        from deepgnn.graph_engine.samplers import FileNodeSampler

        pattern = self.spread([(x,) for x in distinct(self.r, self.n)], lambda x: str(x[0]))
        self.cls, self.kw = FileNodeSampler, dict(self.common(), sample_files=pattern, backfill_id=self.cfg["backfill"])
        self.pad = (self.cfg["backfill"],)
        self.rows = lambda b: [(int(x),) for x in b]

    def make_edge(self, features=0):
        from deepgnn.graph_engine.samplers import FileEdgeSampler

        r = self.r
        etype = r.choice([0, 1, 5, -1])
        sep = r.choice(["\t", "\t", ",", " "])
        ids = distinct(r, self.n)
        ftype = r.choice([np.float32, np.float32, np.int64, np.float64])
        val = (lambda: r.randint(-9, 2**40)) if ftype == np.int64 else (lambda: r.randint(-4096, 4096) / 64)
        items = [(x, r.choice(ids), etype) + tuple(val() for _ in range(features)) for x in ids]
        pattern = self.spread(items, lambda x: sep.join(str(y) for y in x[:2] + x[3:]))
        self.cls = FileEdgeSampler
        self.kw = dict(self.common(), edge_type=etype, sample_files=pattern, backfill_id=self.cfg["backfill"])
        if sep != "\t" or r.random() < 0.5:
            self.kw["delimeter"] = sep
        if features:
            self.kw.update(feature_dim=features, feature_type=ftype)
        self.pad = (self.cfg["backfill"], self.cfg["backfill"], etype) + (0,) * features

        def rows(b):
            if not features:
                return [tuple(int(y) for y in x) for x in b]
            edges, feats = b
            if len(edges) != len(feats):
                self.bad("features and edges of a batch differ in number", "%d edges, %d features" % (len(edges), len(feats)))
            if feats.dtype != ftype:
                self.bad("wrong feature type", "%s instead of %s" % (feats.dtype, np.dtype(ftype)))
            return [tuple(int(y) for y in e) + tuple(y.item() for y in f) for e, f in zip(edges, feats)]

        self.rows = rows

    def make_edgefeat(self):
        self.make_edge(self.r.choice([1, 2, 5]))

    def make_tuple(self):
        from deepgnn.graph_engine.samplers import FileTupleSampler

        items = [(x, self.r.randint(0, 5)) for x in distinct(self.r, self.n)]
        path = self.single(items, lambda x: "%d\t%d" % x)
        self.cls, self.kw = FileTupleSampler, dict(self.common(), filename=path, backfill=self.cfg["backfill"])
        self.pad = (self.cfg["backfill"],) * 2
        self.rows = lambda b: [tuple(int(y) for y in x) for x in b]

    def make_tuple2(self):
        from deepgnn.graph_engine.samplers import FileTupleSamplerV2

        r = self.r
        self.cfg["backfill"] = r.choice([-1, -77, 0])
        dim = r.choice([1, 2, 4])
        items = [(x, r.randint(0, 64) / 4) + tuple(r.randint(-640, 640) / 8 for _ in range(dim)) for x in distinct(r, self.n)]
        path = self.single(items, lambda x: "%d\t%r\t%s" % (x[0], x[1], " ".join(repr(y) for y in x[2:])))
        self.cls, self.kw = FileTupleSamplerV2, dict(self.common(), filename=path, backfill=self.cfg["backfill"])
        if r.random() < 0.3:
            self.kw["line_parser_func"] = lambda line: (
                np.int64(int(line.split("\t")[0])),
                np.float64(line.split("\t")[1]),
                np.array([np.float64(x) for x in line.split("\t")[2].split(" ")]),
            )
        self.pad = (self.cfg["backfill"],) * (2 + dim)

        def rows(b):
            ids, labels, feats = b
            if not len(ids) == len(labels) == len(feats):
                self.bad("columns of a batch differ in length", "%d %d %d" % (len(ids), len(labels), len(feats)))
            return [(int(i), float(x)) + tuple(float(y) for y in f) for i, x, f in zip(ids, labels, feats)]

        self.rows = rows

    def make_range(self):
        from deepgnn.graph_engine.samplers import RangeNodeSampler

        first = self.r.choice([1, 1, 5, 1000, 2**40])
        self.items = [(first + i,) for i in range(self.n)]
        self.parts = None
        self.cls = RangeNodeSampler
        self.kw = dict(first=first, last=first + self.n, batch_size=self.cfg["batch"], backfill_id=self.cfg["backfill"])
        self.pad = (self.cfg["backfill"],)
        self.rows = lambda b: [(int(x),) for x in b]

    def make_rangeedge(self):
        from deepgnn.graph_engine.samplers import RangeEdgeSampler

        self.make_range()
        self.cls = RangeEdgeSampler
        etype = self.r.choice([0, 3])
        self.kw["edge_type"] = etype
        self.rowlen = 2

        def rows(b):
            if b.shape[1:] != (3,) or any(int(x) != etype for x in b[:, 2]):
                self.bad("wrong edge type", str(b.tolist()))
            return [(int(x),) for x in b[:, :2].reshape(-1)]

        self.rows = rows

    def make_csv(self):
        from deepgnn.graph_engine.samplers import CSVNodeSampler

        width = self.r.choice([1, 1, 3])
        items = [(x,) + tuple(self.r.randint(0, 9) for _ in range(width - 1)) for x in distinct(self.r, self.n)]
        path = self.single(items, lambda x: ",".join(str(y) for y in x) + ("\n" if self.r.random() < 0.1 else ""))
        self.cls, self.kw = CSVNodeSampler, dict(batch_size=self.cfg["batch"], sample_file=path, epoch=self.cfg["epochs"])
        self.pad = None
        self.rows = lambda b: [tuple(int(y) for y in x) for x in b]

    def make_text(self):
        from deepgnn.graph_engine.samplers import TextFileSampler

        r, cfg = self.r, self.cfg
        workers = cfg["workers"] * cfg["shards"]
        files = workers + r.choice([0, 0, 1, 3])
        cut = [[] for _ in range(files)]
        self.items = []
        for i in range(self.n):
            x = "line %d of %s" % (i, "".join(r.choice("abcdef\t,;é") for _ in range(r.choice([1, 3, 30]))))
            self.items.append((x,))
            cut[r.randrange(files)].append(x)
        for i, part in enumerate(cut):
            with open(os.path.join(self.folder, "part_%02d.txt" % i), "w", encoding="utf-8") as f:
                f.write("".join(x + "\n" for x in part))
        self.parts = None
        self.cls = TextFileSampler
        self.kw = dict(self.common(), store_name="", filename=self.folder, buffer_size=r.choice([1, 8, 100, 1024]), read_block_in_M=r.choice([0.00005, 0.001, 50]), buffer_queue_size=r.choice([1, 3]))
        self.textparts = [[x for p in cut[i::workers] for x in p] for i in range(workers)]
        self.pad = ("",)
        self.rows = lambda b: [(x,) for x in b]

    # ---- iteration

    def bad(self, mech, what):
        self.ctx.fail(mech, what, self.cfg)

    def create(self, worker, shard):
        cfg = self.cfg
        kw = dict(self.kw)
        if cfg["kind"] != "csv":
            kw.update(worker_index=worker, num_workers=cfg["workers"])
        if cfg["setter"]:
            s = self.cls(**kw)
            s.data_parallel_num = cfg["shards"]
            s.data_parallel_index = shard
            return s
        if cfg["shards"] > 1 or self.r.random() < 0.5:
            kw.update(data_parallel_num=cfg["shards"], data_parallel_index=shard)
        if cfg["dataset"]:
            if cfg["torch"]:
                self.ctx.count("through_loader_workers")
                return Loaded(shard, cfg["shards"], self.cls, query_fn=query, backend=Backend(None), **brief(self.r, {k: v for k, v in kw.items() if not k.startswith("data_par")}, ("backfill_id",) if "range" in cfg["kind"] else (), True))
            from deepgnn.graph_engine.graph_dataset import DeepGNNDataset

            return DeepGNNDataset(self.cls, query_fn=query, backend=Backend(None), **brief(self.r, kw, ("backfill_id",) if "range" in cfg["kind"] else (), True))
        return self.cls(**brief(self.r, kw, ("backfill_id", "worker_index", "num_workers") if "range" in cfg["kind"] else ()))

    def batches(self, s, limit):
        res = []
        it = iter(s)
        while len(res) <= limit:
            try:
                b = next(it)
            except StopIteration:
                return res, it
            res.append(b)
        self.bad("iteration does not end", "more than %d batches" % limit)

    def iterate(self, s, seed, fresh):
        """Batches of one complete iteration, every batch as a list of rows."""
        cfg = self.cfg
        np.random.seed(seed)
        import random

        random.seed(seed)
        if fresh:
            it = iter(s)
            for _ in range(fresh):
                try:
                    next(it)
                except StopIteration:
                    break
            np.random.seed(seed)
            random.seed(seed)
        limit = self.n * cfg["epochs"] + 10
        got, it = self.batches(s, limit)
        for _ in range(2):
            try:
                next(it)
            except StopIteration:
                continue
            self.bad("iterator continues after its end", "")
        return [self.rows(b) for b in got]

    def run(self):
        ctx, cfg, r = self.ctx, self.cfg, self.r
        ctx.at({"op": "sampler", "cfg": cfg})
        rounds = r.choice([1, 1, 2, 3])
        fresh = r.choice([0, 0, 1, 3, 1000])
        seeds = [r.randrange(2**31) for _ in range(rounds)]
        delivered = [[] for _ in range(rounds)]
        for w in range(cfg["workers"]):
            for shard in range(cfg["shards"]):
                try:
                    s = self.create(w, shard)
                except Exception as e:
                    if self.nothing(w, shard):
                        ctx.count("empty_refused")
                        continue
                    self.bad("sampler creation raised %s" % type(e).__name__, "%s, worker %d, shard %d" % (e, w, shard))
                for i in range(rounds):
                    if i:
                        ctx.count("second_iterations")
                    try:
                        got = self.iterate(s, seeds[i], fresh if i == 0 else 0)
                    except (AssertionError, IndexError, ValueError) as e:
                        if self.nothing(w, shard):
                            ctx.count("empty_refused")
                            continue
                        self.bad("iteration raised %s" % type(e).__name__, "%s, worker %d, shard %d" % (e, w, shard))
                    rows = self.strip(got, w, shard)
                    self.order(rows, w, i)
                    delivered[i].append((w, shard, rows))
                    self.length(s, len(got))
        for i in range(rounds):
            self.complete(delivered[i])
        if cfg["workers"] > 1:
            ctx.count("multi_worker")
        if cfg["shards"] > 1:
            ctx.count("multi_shard")
        if cfg["dataset"]:
            ctx.count("through_dataset")
        total = sum(len(x[2]) for d in delivered for x in d)
        ctx.count("elements", total)
        ctx.case(repr(sorted(cfg.items())), total > 0, dict(cfg, delivered=total))

    def nothing(self, w, shard):
        if self.n == 0:
            return True
        if self.kind == "text":
            return not self.textparts[w * self.cfg["shards"] + shard]
        if self.parts is not None:
            return not self.parts[w]
        return w > 0  # ranges: a missing element shows in the union

    def strip(self, got, w, shard):
        """Elements of batches without padding; checks sizes of batches and the place of padding."""
        cfg = self.cfg
        want = cfg["batch"] * self.rowlen
        res = []
        for i, rows in enumerate(got):
            rows = list(rows)
            if self.pad is None:
                if not 0 < len(rows) <= want:
                    self.bad("wrong batch size", "%d instead of %d" % (len(rows), want))
                res.extend(rows)
                continue
            if len(rows) != want:
                self.bad("wrong batch size", "%d instead of %d" % (len(rows), want))
            real = len(rows)
            while real and rows[real - 1] == self.pad:
                real -= 1
            if real < want:
                self.ctx.count("padded_batches")
                if cfg["drop_last"]:
                    self.bad("padded batch although incomplete batches are dropped", str(rows))
                if i + 1 < len(got):
                    self.bad("padding inside the data", "batch %d of %d: %s" % (i, len(got), rows))
                if real == 0:
                    self.bad("batch of padding only", "batch %d of %d, worker %d, shard %d" % (i, len(got), w, shard))
            res.extend(rows[:real])
        return res

    def order(self, rows, w, i):
        cfg = self.cfg
        if self.kind == "text":
            return
        if cfg["shards"] == 1 and self.parts is not None:
            part = self.parts[w]
            n = len(part)
            for e in range(cfg["epochs"]):
                piece = rows[e * n : (e + 1) * n]
                if cfg["shuffle"]:
                    if len(piece) == n and n >= 7:
                        self.state["orders"] += 1
                        self.state["sorted"] += piece == part
                        if e:
                            self.state["pairs"] += 1
                            self.state["same"] += piece == rows[(e - 1) * n : e * n]
                    if len(set(piece)) != len(piece) or not set(piece) <= set(part):
                        self.bad("epoch does not deliver every element once", "epoch %d, worker %d: %s" % (e, w, piece[:20]))
                elif piece != part[: len(piece)]:
                    self.bad("elements out of order", "epoch %d, worker %d: %s instead of %s" % (e, w, piece[:10], part[:10]))
        elif not cfg["shuffle"] and cfg["epochs"] == 1:
            place = {x: k for k, x in enumerate(self.items)}
            if self.parts is not None:
                place = {x: k for k, x in enumerate(self.parts[w])}
            ks = [place.get(x, -1) for x in rows]
            if -1 in ks:
                self.bad("unknown element", str(rows[ks.index(-1)]))
            if ks != sorted(set(ks)):
                self.bad("elements out of order", "worker %d: %s" % (w, rows[:20]))

    def length(self, s, n):
        cfg = self.cfg
        if self.kind == "text":
            return
        got = len(s)
        slack = 0 if cfg["shards"] == 1 else 1 if self.kind != "csv" else cfg["epochs"]
        if abs(got - n) > slack:
            self.bad("reported length differs from the number of batches", "length %d, %d batches" % (got, n))

    def complete(self, delivered):
        cfg = self.cfg
        have = collections.Counter()
        for w, shard, rows in delivered:
            have.update(rows)
        want = collections.Counter()
        for x in self.items:
            want[x] += cfg["epochs"]
        extra = have - want
        if extra:
            x = next(iter(extra))
            self.bad("element delivered too often" if x in want else "unknown element", "%r delivered %d instead of %d times" % (x, have[x], want[x]))
        missing = sum((want - have).values())
        allowed = 0
        if cfg["drop_last"]:
            if self.kind == "text":
                allowed = sum(len(p) * cfg["epochs"] % cfg["batch"] for p in self.textparts)
            else:
                allowed = sum(len(p) * cfg["epochs"] % cfg["batch"] for p in self.parts)
            self.ctx.count("dropped_elements", missing)
        if missing != allowed:
            x = next(iter(want - have), None)
            self.bad("elements lost", "%d elements missing, %d expected to be dropped, e.g. %r delivered %d instead of %d times" % (missing, allowed, x, have[x], want[x]))


def query(graph, x):
    return x


class Backend:
    def __init__(self, graph):
        self.graph = graph


class Loaded:
    """A dataset in one of the worker processes of a torch loader."""

    def __init__(self, shard, shards, *args, **kw):
        import faketorch

        faketorch.install()
        self.ft = faketorch
        with self:
            from deepgnn.pytorch.common.dataset import TorchDeepGNNDataset

            self.dataset = TorchDeepGNNDataset(*args, **kw)
        self.info = faketorch.WorkerInfo(shard, shards, self.dataset) if shards > 1 else None

    def __enter__(self):
        pass

    def __exit__(self, kind, e, trace):
        lacks = isinstance(e, AttributeError) and type(getattr(e, "obj", None)).__module__ == "faketorch"
        if lacks or isinstance(e, self.ft.Gap):
            raise SystemExit("the replacement of torch lacks something: %s" % e)

    def __iter__(self):
        self.ft.WORKER.info = self.info
        try:
            with self:
                return iter(self.dataset)
        finally:
            self.ft.WORKER.info = None

    def __len__(self):
        return len(self.dataset)


USUAL = {"epochs": 1, "epoch": 1, "shuffle": False, "drop_last": False, "backfill_id": -1, "backfill": -1, "worker_index": 0, "num_workers": 1, "sample_num": -1, "data_parallel_num": 1, "data_parallel_index": 0}


def brief(r, kw, keep, dataset=False):
    """Leave out arguments that have their documented default values, as most callers do."""
    usual = dict(USUAL, batch_size=1) if dataset else USUAL
    return {k: v for k, v in kw.items() if k in keep or k not in usual or v != usual[k] or r.random() < 0.4}


def graph_case(ctx, r, kind):
    from deepgnn.graph_engine import samplers
    from deepgnn.graph_engine._base import Graph, SamplingStrategy
    from deepgnn.graph_engine.graph_dataset import DeepGNNDataset

    calls, counts = [], []
    available = r.choice([0, 1, 5, 12, 100, 1000])

    class Fake(Graph):
        def _sample(self, size, types, strategy=None, width=None):
            res = np.arange(size * (width or 1), dtype=np.int64) + 1000 * len(calls)
            res = res.reshape(size, width) if width else res
            calls.append((size, types, strategy, res))
            return res

        def sample_nodes(self, size, node_types, strategy=SamplingStrategy.Weighted):
            res = self._sample(size, node_types, strategy)
            if isinstance(node_types, np.ndarray):
                return res, np.zeros(size, dtype=np.int32)
            return res

        def sample_edges(self, size, edge_types, strategy=SamplingStrategy.Weighted):
            return self._sample(size, edge_types, strategy, 3)

        def node_count(self, types):
            counts.append(("node", types))
            return available

        def edge_count(self, types):
            counts.append(("edge", types))
            return available

    Fake.__abstractmethods__ = frozenset()
    cfg = {
        "kind": kind,
        "available": available,
        "batch": r.choice([1, 2, 5, 8, 50]),
        "epochs": r.choice([1, 2, 3]),
        "sample_num": r.choice([-1, -1, 0, 1, 7, 20, 64]),
        "workers": r.choice([1, 1, 2, 3]),
        "shards": r.choice([1, 1, 2, 3]),
        "types": r.choice(["int", "array"]) if kind == "genode" else "int",
        "strategy": r.choice([None, SamplingStrategy.Random, SamplingStrategy.RandomWithoutReplacement, SamplingStrategy.Weighted]),
        "dataset": r.random() < 0.5,
        "torch": r.random() < 0.5,
    }
    types = r.randint(0, 3) if cfg["types"] == "int" else np.array([0, 2], dtype=np.int32)
    cfg["strategy"], strategy = str(cfg["strategy"]), cfg["strategy"]
    ctx.at({"op": "graph sampler", "cfg": cfg})
    kw = dict(batch_size=cfg["batch"], epochs=cfg["epochs"], sample_num=cfg["sample_num"], num_workers=cfg["workers"], data_parallel_num=cfg["shards"], data_parallel_index=r.randrange(cfg["shards"]))
    kw["node_types" if kind == "genode" else "edge_types"] = types
    if strategy is not None:
        kw["strategy"] = strategy
    cls = samplers.GENodeSampler if kind == "genode" else samplers.GEEdgeSampler
    graph = Fake()
    if cfg["dataset"] and cfg["torch"]:
        ctx.count("through_loader_workers")
        s = ctx.call("create dataset", Loaded, kw.pop("data_parallel_index"), kw.pop("data_parallel_num"), cls, query_fn=query, backend=Backend(graph), case=cfg, **brief(r, kw, (), True))
        iter(s)
    elif cfg["dataset"]:
        s = ctx.call("create dataset", DeepGNNDataset, cls, query_fn=query, backend=Backend(graph), case=cfg, **brief(r, kw, (), True))
    else:
        s = ctx.call("create sampler", cls, graph, case=cfg, **brief(r, kw, ("epochs",)))
    total = cfg["epochs"] * (available if cfg["sample_num"] == -1 else cfg["sample_num"])
    per = cfg["batch"] * cfg["workers"] * cfg["shards"]
    want = -(-total // per)
    if cfg["sample_num"] == -1 and [c for c in counts if c[0] != ("node" if kind == "genode" else "edge") or c[1] is not types]:
        ctx.fail("count of wrong elements", str(counts), cfg)
    for rnd in range(2):
        before = len(calls)
        it = iter(s)
        for i in range(want + 2):
            try:
                b = next(it)
            except StopIteration:
                break
            size, t, st, res = calls[-1]
            if len(calls) != before + i + 1:
                ctx.fail("batch without one sampling call", "%d calls for %d batches" % (len(calls) - before, i + 1), cfg)
            if size != cfg["batch"] or t is not types or st != (strategy or SamplingStrategy.Weighted):
                ctx.fail("batch sampled with other settings", "%r %r %r" % (size, t, st), cfg)
            if not np.array_equal(b, res):
                ctx.fail("batch differs from the sampled elements", "%r %r" % (b, res), cfg)
            ctx.count("graph_batches")
        n = len(calls) - before
        if n != want:
            ctx.fail("number of sampled batches", "%d instead of %d in iteration %d" % (n, want, rnd), cfg)
        if len(s) != want:
            ctx.fail("reported length differs from the number of batches", "%d instead of %d" % (len(s), want), cfg)
    ctx.case(repr(sorted(cfg.items(), key=str)), want > 0, dict(cfg, batches=want))
