"""Workers of tensorflow jobs: meeting points, shares of the data, final checkpoints and files of embeddings."""
import argparse
import collections
import glob
import json
import logging
import os
import pickle
import shutil
import threading
import time
import traceback
import warnings

LEVEL = "exploration"
RULE = "one case is one job of one to six workers, one round of meetings of workers, or one table of embeddings written and read; it is nontrivial when it has at least one batch or meeting, and distinct by kind, workers and seed"
ASSUMPTIONS = [
    "tensorflow and horovod are replaced by stand-ins: workers are threads, parameter servers a shared store, sessions end with the data; kernels, gradients and real clusters are outside",
    "the first worker is created before the others, as the documentation of the meeting point asks",
    "pauses between looks at the meeting point are shortened; a job counts as stuck only when every worker looked 200 times or waits for another and nothing else happened",
]
NEED = {
    "meetings": 300, "meetings with a late worker": 100, "meetings after an earlier run": 100, "odd folders": 20, "many workers": 20,
    "ps jobs": 30, "horovod jobs": 30, "eager jobs": 30, "eager horovod jobs": 20, "several workers": 80, "several epochs": 60, "single worker": 20,
    "trained steps": 2000, "final checkpoints": 100, "inference files": 200, "padded batches": 60, "evaluated jobs": 100, "restored weights": 100, "tables": 200, "skipped ids": 100, "datasets": 100, "prefetched datasets": 30,
}
PARALLEL = 6


def plan(tier, seed):
    big = tier == "thorough"
    return [{"name": "w%d" % i, "cases": 320 if big else 30, "timeout": 800} for i in range(6)]


class Stuck(Exception):
    pass


class Crew:
    """Threads that play workers; sees when all of them only wait."""

    def __init__(self, r, tf, late=None):
        self.tf, self.late = tf, late
        self.lock = threading.Lock()
        self.clock = 0
        self.busy = 0
        self.log = []
        self.members = []
        self.seed = r.randrange(1 << 30)

    def mark(self, name, **what):
        """Something happened."""
        with self.lock:
            self.busy += 1
            self.clock += 1
            self.log.append((self.clock, getattr(self.tf.ME, "rank", None), name, what))
            return self.clock

    def hook(self, name, **what):
        me = getattr(self.tf.ME, "member", None)
        if name == "waiting for the chief":
            if me is not None:
                self.look(me)
            return
        self.mark(name, **what)
        if me is not None and me.r.random() < 0.15:
            REAL(me.r.random() * 0.001)

    def look(self, me):
        """A worker found that it has to wait."""
        with self.lock:
            if me.seen != self.busy:
                me.seen, me.looks = self.busy, 0
            me.looks += 1
            others = [m for m in self.members if not m.done]
            if all((m.looks >= 200 and m.seen == self.busy) or m.waits for m in others) and all(m.thread.is_alive() for m in others):
                raise Stuck("every worker waits")

    def work(self, size, fn, world=None):
        import random

        errors, results = {}, {}

        def body(me):
            ME = self.tf.ME
            ME.__dict__.clear()
            ME.rank, ME.member, ME.world = me.rank, me, world
            self.tf.WIDTH.n = 2
            try:
                results[me.rank] = fn(me.rank, me)
            except BaseException as e:
                errors[me.rank] = (e, traceback.format_exc())
            finally:
                with self.lock:
                    me.done = True
                    self.busy += 1
                if world is not None:
                    world.leave()

        self.members = []
        for i in range(size):
            me = argparse.Namespace(rank=i, r=random.Random(self.seed * 64 + i), seen=-1, looks=0, done=False, waits=False)
            me.thread = threading.Thread(target=body, args=(me,), daemon=True)
            self.members.append(me)
        for me in self.members:
            me.thread.start()
        for me in self.members:
            me.thread.join()
        return results, errors


REAL = time.sleep
CREW = [None]


def nap(s):
    crew = CREW[0]
    me = getattr(crew.tf.ME, "member", None) if crew is not None else None
    if s < 1 or me is None:
        return REAL(min(s, 0.01) if me is not None else s)
    REAL(0.0004)
    crew.look(me)


def run(job, ctx):
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy as np

    import faketf as ft

    tf = ft.install()
    from deepgnn.graph_engine import FileNodeSampler, GENodeSampler, Graph, RangeNodeSampler, SamplingStrategy
    from deepgnn.graph_engine.backends.common import GraphEngineBackend
    from deepgnn.tf import common
    from deepgnn.tf.common.dataset import create_tf_dataset, get_distributed_dataset
    from deepgnn.tf.common.dist_sync import DistributedSync
    from deepgnn.tf.common.trainer_factory import get_trainer
    from deepgnn.tf.common.utils import load_embeddings, node_embedding_to_string

    time.sleep = nap

    def call(what, fn, *args, case=None, **kwargs):
        return ctx.call(what, ft.guard(fn), *args, case=case, **kwargs)

    def crew_of(r, **kw):
        crew = Crew(r, ft, **kw)
        CREW[0] = crew
        ft.HOOK[0] = crew.hook
        return crew

    exchange = ft.World.exchange

    def waiting(self, rank, what, v):
        me = getattr(ft.ME, "member", None)
        if me is not None:
            me.waits = True
        try:
            return exchange(self, rank, what, v)
        finally:
            if me is not None:
                me.waits = False
                CREW[0].mark("met")

    ft.World.exchange = waiting

    def judge(errors, what, case):
        """Exceptions of workers: gaps of the stand-in give no verdict."""
        for rank in sorted(errors):
            e, text = errors[rank]
            if isinstance(e, ft.Gap):
                raise e
        for rank in sorted(errors):
            e, text = errors[rank]
            if isinstance(e, Stuck):
                ctx.fail("workers wait for ever", "%s, worker %d of %s: %s" % (what, rank, case.get("workers"), text.strip().splitlines()[-1]), case)
        for rank in sorted(errors):
            e, text = errors[rank]
            if isinstance(e, Exception):
                ctx.fail("%s raised %s" % (what, type(e).__name__), "worker %d: %s\n%s" % (rank, e, text[-1500:]), case)
            raise e

    def folder(r, tag):
        d = os.path.join(ctx.scratch, "%s_%d" % (tag, r.randrange(10**9)))
        if r.random() < 0.15:
            d += r.choice(["[1]", "[ab]", " x", "*y", "?z"])
            ctx.count("odd folders")
        os.makedirs(d)
        return d

    # ---- meetings

    def meet(r, case):
        size = r.choice([1, 2, 2, 3, 4, 6, 11, 12])
        d = folder(r, "meet")
        keep = {n: "%d" % r.randrange(10**6) for n in ("checkpoint", "model.ckpt-7.index", "embedding_0.tsv", "synced", "a.sync", "async.session.0")}
        for n, v in keep.items():
            with open(os.path.join(d, n), "w") as w:
                w.write(v)
        stale = r.random() < 0.6
        tags = r.sample(["session", "final", "final.1", "a", "epoch 3", "sync"], r.choice([1, 2, 3]))
        if stale and r.random() < 0.5:
            for t in tags:
                for i in range(size + 1):
                    if r.random() < 0.8:
                        open(os.path.join(d, "sync.%s.%d" % (t, i)), "w").close()
        case.update(workers=size, tags=tags, folder=os.path.basename(d), stale=stale)
        for turn in range(2 if stale else 1):
            crew = crew_of(r)
            syncs = [call("creating the meeting point", DistributedSync, d, i, size, case=case) for i in range(size)]
            late = r.randrange(size) if size > 1 and r.random() < 0.6 else None
            entered, left = collections.defaultdict(dict), collections.defaultdict(dict)

            def body(rank, me):
                for t in tags:
                    if rank == late:
                        # Comes when all others have looked several times.
                        for _ in range(4000):
                            if all(m.done or m is me or m.looks >= 3 for m in crew.members):
                                break
                            if any(rank2 in left[t] for rank2 in range(size)):
                                break
                            REAL(0.0005)
                    elif me.r.random() < 0.5:
                        REAL(me.r.random() * 0.002)
                    entered[t][rank] = crew.mark("enters", tag=t)
                    syncs[rank].sync(t)
                    left[t][rank] = crew.mark("leaves", tag=t)

            _, errors = crew.work(size, body)
            judge(errors, "meeting", case)
            for t in tags:
                first, last = min(left[t].values()), max(entered[t].values())
                if first < last:
                    early = [k for k, v in left[t].items() if v < last]
                    missing = [k for k, v in entered[t].items() if v > first]
                    ctx.fail("a worker left before all had come", "worker %s left %r before worker %s came, round %d" % (early, t, missing, turn), case)
                ctx.count("meetings")
                ctx.count("meetings with a late worker", late is not None)
                ctx.count("meetings after an earlier run", stale)
                ctx.count("many workers", size > 10)
        for n, v in keep.items():
            p = os.path.join(d, n)
            if not os.path.exists(p) or open(p).read() != v:
                ctx.fail("other files were changed", "%s after meetings" % n, case)
        shutil.rmtree(d)

    # ---- jobs

    class Opt:
        def minimize(self, loss, global_step=None, combine=None, **kwargs):
            def do(run):
                g = float(run(loss))
                if combine is not None:
                    g = combine(g)
                with run.store.lock:
                    run.store.values["w"] = run.store.values["w"] + g
                    run.store.values["global_step"] = run.store.values["global_step"] + 1
                return None

            return tf.Tensor(thunk=do)

    def start(kind, d, rank, size, hosts, world):
        p = argparse.ArgumentParser()
        common.args.import_default_parameters(p)
        argv = ["--model_dir", d, "--log_save_steps", "3", "--summary_save_steps", "2"]
        if "eager" in kind:
            argv.append("--eager")
        argv += ["--trainer", "hvd" if "horovod" in kind else "ps"]
        if kind == "ps" and hosts:
            argv += ["--job_name", "worker", "--task_index", str(rank), "--worker_hosts", ",".join(hosts), "--ps_hosts", "ps0:1"]
        os.environ.pop("TF_CONFIG", None)
        if kind == "eager" and (size > 1 or rank):
            os.environ["TF_CONFIG"] = json.dumps({"cluster": {"worker": hosts}, "task": {"type": "worker", "index": rank}})
        ft.ME.rank, ft.ME.world = rank, world
        try:
            return get_trainer(p.parse_args(argv))
        finally:
            os.environ.pop("TF_CONFIG", None)

    def work(r, case):
        kind = r.choice(["ps", "horovod", "eager", "eager horovod"])
        size = r.choice([1, 2, 2, 3, 4])
        batch = r.choice([1, 2, 3, 5])
        epochs = r.choice([1, 1, 2, 3])
        even = kind != "ps"
        # Ranks that exchange gradients need the same number of steps.
        n = batch * size * r.choice([1, 2, 4]) if even else r.choice([size * 2, size * 5 + 1, 17, 30])
        # Every worker of a range has at least one batch.
        n = max(n, size * batch)
        dim = r.choice([1, 3])
        d = folder(r, "job")
        files = r.random() < 0.4
        feats = {i: np.array([round(r.uniform(-5, 5), 3) for _ in range(dim)]) for i in range(n)}
        given = r.random() < 0.7
        prefix = r.choice(["embedding", "embedding", "out"])
        case.update(job=kind, workers=size, nodes=n, batch=batch, epochs=epochs, files=files, steps=given, folder=os.path.basename(d))
        ids = list(range(n))
        if files:
            r.shuffle(ids)
            cut = [ids[i::size] for i in range(size)]
            for i, part in enumerate(cut):
                with open(os.path.join(d, "nodes_%02d.txt" % i), "w") as w:
                    w.write("".join("%d\n" % x for x in part))
        local = kind == "ps" and size == 1 and r.random() < 0.6
        def data(trainer, mode, seen):
            def query(graph, inputs, return_shape=False):
                inputs = np.asarray(inputs)
                feat = np.array([feats.get(int(i), np.zeros(dim)) for i in inputs], dtype=np.float64)
                if return_shape:
                    return (inputs, feat), ([len(inputs)], [len(inputs), dim])
                seen.append(inputs.tolist())
                return (inputs, feat)

            args = dict(query_fn=query, backend=None, num_workers=trainer.worker_size, worker_index=trainer.task_index, batch_size=batch)
            if files:
                ds, steps = call("create_tf_dataset", create_tf_dataset, FileNodeSampler, sample_files=os.path.join(glob.escape(d), "nodes_*.txt"), shuffle=mode == "train", drop_last=False, backfill_id=-1, case=case, **args)
            else:
                ds, steps = call("create_tf_dataset", create_tf_dataset, RangeNodeSampler, first=0, last=n, backfill_id=-1, case=case, **args)
            return ds, steps

        def job_of(mode, turn):
            crew = crew_of(r)
            world = ft.World(size) if "horovod" in kind else None
            hosts = [] if local else ["w%d_%d_%d:1" % (turn, i, crew.seed) for i in range(size)]
            # The trainer of the first worker is created first, all in the order of workers.
            ft.ME.__dict__.clear()
            trainers = [call("get_trainer", start, kind, d, i, size, hosts, world, case=case) for i in range(size)]
            for i, t in enumerate(trainers):
                if (t.task_index, t.worker_size if not local else 1) != (i, size):
                    ctx.fail("a worker has a wrong number", "%s of %s instead of %d of %d" % (t.task_index, t.worker_size, i, size), case)
                if local:
                    t.worker_size = 1
            seen = [[] for _ in range(size)]
            used = [[] for _ in range(size)]
            finals = [None] * size
            calls = [0] * size

            class Graphed:
                """Model of a graph: one number that grows."""

                def __init__(self, rank):
                    self.rank = rank
                    self.w = ft.GraphVariable("w", float(starts[rank] if mode == "train" else -99.5 - rank))

                def __call__(self, context, training=True):
                    def loss(nodes, feat):
                        used[self.rank].append(np.asarray(nodes).tolist())
                        return tf.Tensor(float(sum(x + 1 for x in np.asarray(nodes).tolist() if x >= 0)))

                    return None, ft.lift(loss)(context[0], context[1]), {"m": ft.lift(lambda x: tf.Tensor(0.0))(context[0])}

                def predict_step(self, context):
                    def keep(x):
                        used[self.rank].append(np.asarray(x).tolist())
                        return tf.Tensor(x)

                    return [ft.lift(keep)(context[0]), ft.lift(lambda f, w: tf.Tensor(np.asarray(f) * w))(context[1], self.w)]

            class Eager(tf.keras.Model):
                def __init__(self, rank):
                    super().__init__()
                    self.rank = rank
                    self.w = tf.Variable(float(starts[rank] if mode == "train" else -99.5 - rank), name="w")

                def look(self, data):
                    nodes, feat = data
                    used[self.rank].append(ft.raw(nodes).tolist())
                    return ft.raw(nodes), ft.raw(feat)

                def train_step(self, data):
                    nodes, _ = self.look(data)
                    g = 1.0 if world is None else sum(ft.everyone(float(sum(x + 1 for x in nodes.tolist() if x >= 0)), "reduce"))
                    self.w.assign(self.w.a + g)
                    return {"loss": float(self.w.a)}

                def test_step(self, data):
                    self.look(data)
                    return {"loss": float(self.w.a)}

                def predict_step(self, data):
                    nodes, feat = self.look(data)
                    return [tf.Tensor(nodes), tf.Tensor(feat * self.w.a)]

            def body(rank, me):
                t = trainers[rank]
                ds, steps = data(t, mode, seen[rank])
                if mode == "train" and "eager" in kind:
                    ds = ds.repeat(epochs)
                whole = get_distributed_dataset(lambda c: ds)
                model = (Eager if "eager" in kind else Graphed)(rank)
                more = None
                if "eager" in kind and mode != "inference":
                    def tick(*a):
                        calls[rank] += 1

                    more = [tf.keras.callbacks.LambdaCallback(**{"on_train_batch_end" if mode == "train" else "on_test_batch_end": tick})]
                if mode == "train":
                    # Without a number of steps the data of all epochs is one epoch.
                    e = epochs if given or "eager" not in kind else 1
                    t.train(dataset=whole, model=model, optimizer=Opt(), epochs=e, steps_per_epoch=steps if given else None, **({"callbacks": more} if more else {}))
                elif mode == "inference":
                    t.inference(dataset=whole, model=model, embedding_to_str_fn=node_embedding_to_string, output_embedding_file_prefix=prefix, steps=steps if given else None)
                else:
                    t.evaluate(dataset=whole, model=model, steps=steps if given else None, **({"callbacks": more} if more else {}))
                # What a worker finds when its part of the job is over.
                finals[rank] = latest() if "eager" not in kind else None
                return steps, (float(model.w.a) if "eager" in kind else float((ft.CLUSTERS[t.session_target].store if t.session_target else ft.local().store).values["w"]))

            results, errors = crew.work(size, body, world)
            judge(errors, mode, case)
            return crew, results, seen, used, finals, calls

        def latest():
            p = os.path.join(d, "checkpoint")
            if not os.path.exists(p):
                return None
            with open(p) as f:
                name = f.read()
            with open(os.path.join(d, name + ".index"), "rb") as f:
                v = pickle.load(f)
            return {k: float(x) for k, x in v.items()}

        starts = [float(r.randint(1, 50)) for _ in range(size)]
        if kind == "eager":
            starts = [starts[0]] * size
        crew, results, seen, used, finals, calls = job_of("train", 0)
        per = [results[i][0] for i in range(size)]
        steps = sum(len(u) for u in used)
        got = collections.Counter(x for u in used for b in u for x in b if x != -1)
        want = collections.Counter({i: epochs for i in range(n)})
        if got != want:
            bad = {k: (got.get(k, 0), want.get(k, 0)) for k in sorted(set(got) | set(want)) if got.get(k, 0) != want.get(k, 0)}
            ctx.fail("nodes were not trained once per epoch", "times and expected times: %s" % dict(list(bad.items())[:8]), case)
        for i in range(size):
            if per[i] is not None and per[i] * epochs != len(used[i]):
                ctx.fail("the length of a dataset is wrong", "worker %d: %s batches per epoch, %d batches in %d epochs" % (i, per[i], len(used[i]), epochs), case)
            if calls[i] != (len(used[i]) if "eager" in kind else 0):
                ctx.fail("callbacks were not called for every batch", "worker %d: %d of %d" % (i, calls[i], len(used[i])), case)
        ctx.count("trained steps", steps)
        total = epochs * sum(i + 1 for i in range(n))
        if kind == "eager":
            end = starts[0] + len(used[0])
        else:
            end = starts[0] + total
        for i in range(size):
            if abs(results[i][1] - end) > 1e-6:
                ctx.fail("workers end with wrong weights", "worker %d has %s instead of %s" % (i, results[i][1], end), case)
        saves = [(rank, what["path"]) for _, rank, name, what in crew.log if name == "save"]
        if kind == "ps" or "horovod" in kind:
            others = [s for s in saves if s[0] != 0]
            if others:
                ctx.fail("another worker than the first saved the model", str(others[:3]), case)
        if not saves:
            ctx.fail("the model was not saved", "", case)
        if "eager" not in kind:
            for i, f in enumerate(finals):
                if f is None or f["global_step"] != (steps if kind == "ps" else steps / size) or abs(f["w"] - end) > 1e-6:
                    ctx.fail("the final checkpoint misses steps", "worker %d ended with checkpoint %s after %d steps of all workers, weights should be %s" % (i, f, steps, end), case)
        else:
            with open(os.path.join(d, "ckpt"), "rb") as f:
                w = float(pickle.load(f)[0])
            if abs(w - end) > 1e-6:
                ctx.fail("the final checkpoint misses steps", "weights %s instead of %s" % (w, end), case)
        ctx.count("final checkpoints")
        ctx.count({"ps": "ps jobs", "horovod": "horovod jobs", "eager": "eager jobs", "eager horovod": "eager horovod jobs"}[kind])
        ctx.count("several workers", size > 1)
        ctx.count("several epochs", epochs > 1)
        ctx.count("single worker", size == 1)

        def saved():
            return {os.path.basename(p): open(p, "rb").read() for p in glob.glob(os.path.join(glob.escape(d), "*")) if os.path.isfile(p) and os.path.basename(p).startswith(("checkpoint", "model.ckpt", "ckpt"))}

        before = saved()
        order = ["inference", "evaluate"]
        r.shuffle(order)
        for turn, mode in enumerate(order):
            crew, results, seen, used, _, calls = job_of(mode, turn + 1)
            if saved() != before:
                ctx.fail("the checkpoint changed without training", mode, case)
            looked = seen if mode == "evaluate" else used
            got = collections.Counter(x for u in looked for b in u for x in b if x != -1)
            if got != collections.Counter(range(n)):
                bad = {k: got.get(k, 0) for k in sorted(set(got) | set(range(n))) if got.get(k, 0) != 1}
                ctx.fail("nodes were not seen once", "%s: %s" % (mode, dict(list(bad.items())[:8])), case)
            if mode == "evaluate" and "eager" in kind:
                for i in range(size):
                    if calls[i] != len(used[i]) or len(used[i]) != len(seen[i]):
                        ctx.fail("callbacks were not called for every batch", "worker %d: %d of %d" % (i, calls[i], len(seen[i])), case)
            for i in range(size):
                if abs(results[i][1] - end) > 1e-6:
                    ctx.fail("weights were not restored", "%s: worker %d has %s instead of %s" % (mode, i, results[i][1], end), case)
            ctx.count("restored weights", size)
            ctx.count("padded batches", sum(-1 in b for u in looked for b in u))
            if mode == "evaluate":
                ctx.count("evaluated jobs")
                continue
            lines = collections.defaultdict(list)
            for i in range(size):
                p = os.path.join(d, "%s_%d.tsv" % (prefix, i))
                if not os.path.exists(p):
                    ctx.fail("a file of embeddings is missing", os.path.basename(p), case)
                mine = sorted(x for b in used[i] for x in b if x != -1)
                with open(p) as f:
                    rows = [l.rstrip("\n").split("\t") for l in f]
                if sorted(int(x[0]) for x in rows) != mine:
                    ctx.fail("a file of embeddings has other nodes", "worker %d computed %s, its file has %s" % (i, mine[:10], sorted(int(x[0]) for x in rows)[:10]), case)
                for x in rows:
                    lines[int(x[0])].append([float(v) for v in x[1].split(" ")])
                ctx.count("inference files")
            table = call("load_embeddings", load_embeddings, d, n, dim, case=case, fileprefix="%s_*.tsv" % prefix)
            for i in range(n):
                want = feats[i] * end
                if len(lines[i]) != 1 or np.abs(np.array(lines[i][0]) - want).max() > 1e-5 + 1e-6 * np.abs(want).max():
                    ctx.fail("an embedding is wrong", "node %d: %s instead of %s" % (i, lines[i], want), case)
                if np.abs(table[i] - want).max() > 1e-5 + 1e-5 * np.abs(want).max():
                    ctx.fail("an embedding is read wrong", "node %d: %s instead of %s" % (i, table[i], want), case)
        shutil.rmtree(d)

    # ---- tables and datasets

    def tables(r, case):
        d = folder(r, "table")
        n, dim = r.choice([1, 5, 40]), r.choice([1, 2, 7])
        values = np.array([[r.choice([0.0, r.uniform(-1, 1), r.uniform(-1e6, 1e6), 1e-7, -0.25]) for _ in range(dim)] for _ in range(n)], dtype=r.choice([np.float32, np.float64]))
        order = list(range(n))
        r.shuffle(order)
        drop = {i for i in order if r.random() < 0.1}
        invalid = r.choice([-1, -1, -1, 3 if n > 3 else -1])
        files = r.choice([1, 2, 5])
        case.update(nodes=n, dim=dim, files=files, invalid=invalid, folder=os.path.basename(d))
        outs = [open(os.path.join(d, "embedding_%d.tsv" % i), "w") for i in range(files)]
        while order:
            part = [order.pop() for _ in range(min(len(order), r.choice([1, 3, 8])))]
            part = [i for i in part if i not in drop]
            ids, rows = [], []
            for i in part:
                while r.random() < 0.3:
                    ids.append(invalid)
                    rows.append([r.uniform(-9, 9) for _ in range(dim)])
                    ctx.count("skipped ids")
                if i != invalid:
                    ids.append(i)
                    rows.append(values[i])
            args = (np.array(ids, dtype=np.int64), np.array(rows, dtype=values.dtype).reshape(len(ids), dim))
            text = call("node_embedding_to_string", node_embedding_to_string, args, case=case, **({} if invalid == -1 and r.random() < 0.5 else {"invalid_id": invalid}))
            if len(text) != sum(i != invalid for i in ids):
                ctx.fail("wrong number of lines of embeddings", "%d for %s" % (len(text), ids), case)
            r.choice(outs).writelines(text)
        for o in outs:
            o.close()
        got = call("load_embeddings", load_embeddings, d, n, dim, case=case)
        for i in range(n):
            want = np.zeros(dim) if i in drop or i == invalid else np.asarray(values[i], dtype=float)
            if got.shape != (n, dim) or np.abs(got[i] - want).max() > 2e-6 + 2e-7 * np.abs(want).max():
                ctx.fail("an embedding is read wrong", "node %d: %s instead of %s" % (i, got[i], want), case)
        ctx.count("tables")
        shutil.rmtree(d)

    class Source(Graph):
        def __init__(self, n):
            self.n, self.at = n, 0

        def node_count(self, types):
            return self.n

        def sample_nodes(self, size, node_types, strategy=None, *args, **kwargs):
            out = np.arange(self.at, self.at + size) % self.n
            self.at += size
            return (out, np.zeros_like(out)) if isinstance(node_types, np.ndarray) else out

    Source.__abstractmethods__ = frozenset()

    def datasets(r, case):
        n, batch, workers = r.choice([1, 7, 20]), r.choice([1, 2, 4]), r.choice([1, 1, 2, 3])
        prefetch = r.random() < 0.4
        how = r.choice(["range", "file", "graph"])
        turns = r.choice([1, 2, 3])
        case.update(nodes=n, batch=batch, workers=workers, prefetch=prefetch, how=how, turns=turns)
        d = folder(r, "data")
        CREW[0] = None
        ft.HOOK[0] = None
        got = [collections.Counter() for _ in range(turns)]
        for w in range(workers):
            def query(graph, inputs, return_shape=False):
                inputs = np.asarray(inputs)
                out = (inputs, np.stack([inputs * 2.0, inputs * 3.0], 1), np.array([7, 8], np.int32))
                return (out, ([None], [None, 2], [2])) if return_shape else out

            args = dict(query_fn=query, num_workers=workers, worker_index=w, batch_size=batch, enable_prefetch=prefetch)
            if prefetch:
                args.update(prefetch_queue_size=r.choice([1, 3]), prefetch_worker_size=r.choice([1, 2]))
            if how == "range":
                if n <= (workers - 1) * batch:
                    shutil.rmtree(d)
                    return
                ds, length = call("create_tf_dataset", create_tf_dataset, RangeNodeSampler, first=0, last=n, backfill_id=-1, case=case, **args)
            elif how == "file":
                if n < workers:
                    shutil.rmtree(d)
                    return
                for i in range(workers):
                    with open(os.path.join(d, "f%d.txt" % i), "w") as o:
                        o.writelines("%d\n" % x for x in range(n)[i::workers])
                ds, length = call("create_tf_dataset", create_tf_dataset, FileNodeSampler, sample_files=os.path.join(glob.escape(d), "f*.txt"), shuffle=r.random() < 0.5, drop_last=False, backfill_id=-1, case=case, **args)
            else:
                backend = argparse.Namespace(graph=Source(n))
                ds, length = call("create_tf_dataset", create_tf_dataset, GENodeSampler, backend=backend, node_types=r.choice([0, np.array([0], np.int32)]), strategy=SamplingStrategy.RandomWithoutReplacement, case=case, **args)
            for turn in range(turns):
                items = call("a dataset", lambda: list(ds), case=case)
                if length is not None and len(items) != length:
                    ctx.fail("the length of a dataset is wrong", "%d batches, length %s, turn %d" % (len(items), length, turn), case)
                for ids, feat, const in items:
                    ids = ft.raw(ids)
                    if not np.array_equal(ft.raw(feat), np.stack([ids * 2.0, ids * 3.0], 1)) or ft.raw(const).tolist() != [7, 8]:
                        ctx.fail("a batch of a dataset is mixed up", str(ids), case)
                    got[turn].update(ids[ids != -1].tolist())
        if how != "graph":
            for turn in range(turns):
                if got[turn] != collections.Counter(range(n)):
                    ctx.fail("nodes of a dataset are missing or repeated", "turn %d of %d: %s" % (turn, turns, dict(got[turn])), case)
        ctx.count("datasets")
        ctx.count("prefetched datasets", prefetch)
        shutil.rmtree(d)

    kinds = [meet, meet, meet, meet, work, work, work, work, work, work, work, tables, tables, tables, tables, datasets, datasets, datasets]
    for k in range(job["cases"]):
        for i, fn in enumerate(kinds):
            r = ctx.rng(job["name"], k, i)
            ft.RNG[0] = np.random.default_rng(r.randrange(1 << 30))
            np.random.seed(r.randrange(1 << 30))
            case = {"kind": fn.__name__, "n": k}
            ctx.at({"op": fn.__name__, "case": case})
            try:
                with ctx.trial():
                    fn(r, case)
            except ft.Gap as e:
                raise RuntimeError("the stand-in of tensorflow lacks %s" % e) from None
            ctx.case((job["name"], k, i), True, {a: str(b)[:60] for a, b in case.items()} if k < 2 else None)
