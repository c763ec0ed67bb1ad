"""Training runs stopped at every step of their work and restarted."""
import json
import os
import random
import signal
import sys
import threading
import time
import traceback

import numpy as np

LEVEL = "fault_enumeration"
RULE = "one case is one training, evaluation or inference run with one set of arguments, stopped at one event and restarted where the run is a training; it is nontrivial when a batch was processed, and distinct by arguments and stopping point"
ASSUMPTIONS = [
    "torch and horovod are replaced by stand-ins without gradients, devices and network; ranks are threads; the model under training folds the batches in the order in which they arrive",
    "interruptions are sudden ends of the process, not losses of power",
    "graphs have at most 48 nodes; one long run has more than 1000 epochs and, in the thorough tier, one more than a million steps",
    "learning rates and optimizer state of a restarted run are not claimed, the program does not store them",
]
BUILDS = ["rel"]
NEED = {"runs": 100, "stopped": 60, "stopped while saving": 10, "restarted in the middle": 30, "several ranks": 3, "evaluations": 4, "evaluations of several ranks": 2, "inferences": 3, "long": 1, "by time": 1, "deleted": 10, "workers": 3, "devices": 4, "learning rates": 20}

DIM = 3


def plan(tier, seed):
    big = tier == "thorough"
    jobs = [{"name": "base%d" % i, "config": "rel", "mode": "base", "configs": 8 if big else 3, "stops": 400 if big else 80} for i in range(8 if big else 4)]
    jobs += [{"name": "%s%d" % (t, i), "config": "rel", "mode": "ranks", "trainer": t, "configs": 10 if big else 4, "stops": 60 if big else 20} for t in ("ddp", "hvd") for i in range(3 if big else 1)]
    jobs += [{"name": "eval%d" % i, "config": "rel", "mode": "eval", "configs": 30 if big else 8} for i in range(3 if big else 2)]
    jobs += [{"name": "mtime", "config": "rel", "mode": "mtime", "configs": 10 if big else 3}]
    jobs += [{"name": "epochs", "config": "rel", "mode": "epochs"}]
    if big:
        jobs += [{"name": "steps", "config": "rel", "mode": "steps", "timeout": 800}]
    return jobs


# ---- inside a run


class Log:
    """Lines of a run, also from the threads of several ranks; the file outlives the process."""

    def __init__(self, path, stop, detail=True):
        self.fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        self.lock = threading.Lock()
        self.n = 0
        self.stop = stop
        self.detail = detail

    def put(self, **what):
        if self.detail or what["op"] != "forward":
            os.write(self.fd, (json.dumps(what) + "\n").encode())

    def event(self, name):
        import faketorch as ft

        with self.lock:
            self.n += 1
            if name == "save begins":
                self.put(op="save", rank=getattr(ft.ME, "rank", 0))
            if self.n == self.stop:
                self.put(op="stop", event=name, n=self.n)
                os._exit(9)


def wrap_files(log):
    def wrap(name):
        real = getattr(os, name)

        def f(*args, **kwargs):
            if kwargs.get("dir_fd") is None:
                log.event("before " + name)
            res = real(*args, **kwargs)
            if name in ("remove", "unlink"):
                with log.lock:
                    log.put(op="removed", path=os.path.basename(str(args[0])))
            log.event("after " + name)
            return res

        setattr(os, name, f)

    for name in ("remove", "unlink", "rename", "replace"):
        wrap(name)


# Batches can be nested.
WRAP = {"flat": lambda x: x, "dict": lambda x: {"y": x}, "list": lambda x: [x, x], "deep": lambda x: [{"y": [x]}, [x]]}
UNWRAP = {"flat": lambda x: x, "dict": lambda x: x["y"], "list": lambda x: x[1], "deep": lambda x: x[0]["y"][0]}


def make_model(cfg, log, rank, args):
    import faketorch as ft
    from deepgnn.pytorch.modeling.base_model import BaseModel
    from deepgnn.pytorch.common.metrics import BaseMetric

    class Mean(BaseMetric):
        def compute(self, scores, labels):
            return ft.Tensor(np.mean(scores.a) + 1000.0 * np.mean(labels.a))

    class Folding(BaseModel):
        def __init__(self):
            super().__init__(np.float32, 0, DIM, None)
            self.w = ft.Parameter(np.full(DIM, 1.0 + rank))
            self.metric = Mean()

        def query(self, graph, inputs):
            x = graph.node_features(inputs, np.array([[0, DIM]], dtype=np.int32), np.float32)
            return {"inputs": inputs, "x": WRAP[cfg.get("form", "flat")](x)}

        def look(self, context):
            ids, x = context["inputs"], UNWRAP[cfg.get("form", "flat")](context["x"])
            for name, t in (("inputs", ids), ("x", x)):
                if (t.device == "cuda") != args.gpu:
                    raise RuntimeError("a batch is not where the model is: %s on %s" % (name, t.device))
            ids = ids.a[0]
            x = x.a[0].astype(np.float64)
            return ids, x

        def get_embedding(self, context):
            ids, x = self.look(context)
            with log.lock:
                log.put(op="embed", rank=rank, ids=ids.tolist(), w=self.w.a.tolist(), training=self.training, grad=ft.grad_enabled())
            return ft.Tensor(x + self.w.a)

        def forward(self, context):
            ids, x = self.look(context)
            with log.lock:
                files = None
                if rank == 0 and self.training and log.detail:
                    files = sorted(f for f in os.listdir(args.save_path) if f.endswith(".pt") and not f.startswith("."))
                log.put(op="forward", rank=rank, ids=ids.tolist(), w=self.w.a.tolist(), training=self.training, grad=ft.grad_enabled(), files=files)
            ft.event("forward")
            g = x.mean(axis=0)
            w = self.w

            def back(factor):
                w.grad = ft.Tensor(g * factor if w.grad is None else w.grad.a + g * factor)

            pred = ft.Tensor(x.sum(axis=1) + w.a.sum())
            label = ft.Tensor(ids.astype(np.float64))
            return ft.Tensor(np.float64(x.sum()), back), pred, label

    return Folding()


def fold(w, g):
    return 0.75 * w - g


def one_rank(cfg, log, rank, world, result):
    import faketorch as ft
    from deepgnn.graph_engine.samplers import RangeNodeSampler
    from deepgnn.pytorch.common.dataset import TorchDeepGNNDataset
    from deepgnn.pytorch.training import factory

    class Folder(ft.Optimizer):
        def step(self, closure=None):
            with log.lock:
                log.put(op="lr", rank=rank, lr=self.param_groups[0]["lr"])
            super().step(closure)

        def update(self, p, grad, lr):
            p.a = fold(p.a, grad)

    def scalar(where, tag, value, step):
        with log.lock:
            log.put(op="scalar", where=where, tag=tag, value=value, step=step)

    ft.SCALAR[0] = scalar
    if world is not None:
        ft.join_world(world, rank)
    keep = {}

    def init_model(args):
        keep["model"] = make_model(cfg, log, rank, args)
        return keep["model"]

    def dataset(first, last):
        def make(args, model, rank, world_size, backend, **kwargs):
            kw = {"enable_prefetch": True, "prefetch_worker_size": 1} if cfg.get("prefetch") else {}
            return TorchDeepGNNDataset(
                sampler_class=RangeNodeSampler, query_fn=model.query, backend=backend, num_workers=world_size, worker_index=rank, batch_size=args.batch_size,
                first=first, last=last, backfill_id=-1, **kw)

        return make

    def init_optimizer(args, model, world_size):
        return Folder(model.parameters(), lr=args.learning_rate)

    # The two numbers are given to ranks by the launcher of torch.
    argv = list(cfg["argv"]) + ["--local_rank", str(rank)]
    if cfg.get("direct"):
        # What run_dist does, for the sake of the result.
        from deepgnn.graph_engine import BackendOptions, create_backend

        args = factory.get_args(run_args=argv)
        trainer = factory.get_trainer(args)
        backend = create_backend(BackendOptions(args), is_leader=trainer.rank == 0)
        model = init_model(args)
        data = dataset(*cfg["range"])(args, model, trainer.rank, trainer.world_size, backend)
        res = trainer.run(model, ft.DataLoader(data, num_workers=args.data_parallel_num))
        with log.lock:
            log.put(op="result", rank=rank, value=None if res is None else float(res))
        return
    kw = {}
    if cfg.get("eval_range"):
        kw["init_eval_dataset_for_training_fn"] = dataset(*cfg["eval_range"])
    train = "evaluate" not in argv and "inference" not in argv
    factory.run_dist(init_model, dataset(*cfg["range"]), init_optimizer if train else None, run_args=argv, **kw)
    with log.lock:
        log.put(op="end", rank=rank, w=keep["model"].w.a.tolist(), training=keep["model"].training)


def plain_run(cfg, log):
    """A trainer given batches and a model directly, for runs with very many steps."""
    import faketorch as ft
    from deepgnn.pytorch.training import factory

    args = factory.get_args(run_args=cfg["argv"])
    trainer = factory.get_trainer(args)
    first = [True]

    class Count(ft.Module):
        metric = None

        def __init__(self):
            super().__init__()
            self.w = ft.Parameter(np.zeros(1))

        def forward(self, data):
            if first[0]:
                first[0] = False
                log.put(op="seen", batch=data, w=self.w.a.tolist())
            if self.w.a[0] == cfg.get("stop_at"):
                os._exit(9)
            z = ft.Tensor(np.zeros(1), lambda factor: setattr(self.w, "grad", ft.Tensor(np.ones(1))))
            return z, z, z

    class Batches:
        def __iter__(self):
            return iter(range(cfg["batches"]))

    class Adder(ft.Optimizer):
        def update(self, p, grad, lr):
            p.a = p.a + grad

    model = Count()
    trainer.run(model, Batches(), Adder(model.parameters(), lr=0.1))
    log.put(op="end", rank=0, w=model.w.a.tolist(), training=model.training)


def child(cfg, path, stop):
    import faketorch as ft

    log = Log(path, stop, cfg.get("detail", True))
    ft.HOOK[0] = log.event
    wrap_files(log)
    if cfg.get("tally"):
        cfg["done"] = lambda: log.put(op="tally", n=log.n)
    if cfg.get("plain"):
        return plain_run(cfg, log)
    ranks = cfg.get("ranks", 1)
    if ranks == 1 and "ddp" not in cfg["argv"] and "hvd" not in cfg["argv"]:
        return one_rank(cfg, log, 0, None, None)
    os.environ.update(MASTER_ADDR="127.0.0.1", MASTER_PORT="1", RANK="0", WORLD_SIZE=str(ranks))
    world = ft.World(ranks)
    errors = []

    def work(k):
        try:
            one_rank(cfg, log, k, world, None)
        except BaseException as e:
            errors.append((e, traceback.format_exc()))
        finally:
            world.leave()

    threads = [threading.Thread(target=work, args=(k,)) for k in range(ranks)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    # The first error is the cause, the others only lost their partners.
    errors.sort(key=lambda e: isinstance(e[0], ft.OutOfStep))
    if errors:
        raise errors[0][0]


def launch(ctx, cfg, path, stop=0):
    """Runs in a process of its own; returns its lines and how it ended."""
    import faketorch as ft

    err = path + ".err"
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            for s in (signal.SIGTERM, signal.SIGINT):
                signal.signal(s, signal.SIG_DFL)
            fd = os.open(path + ".out", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            child(cfg, path, stop)
            if "done" in cfg:
                cfg["done"]()
            code = 0
        except BaseException as e:
            gap = isinstance(e, ft.Gap) or (isinstance(e, AttributeError) and "has no attribute" in str(e) and type(getattr(e, "obj", None)).__module__ == "faketorch")
            with open(err, "w") as f:
                f.write(("GAP " if gap else "") + "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    ctx.count("runs")
    lines = [json.loads(x) for x in open(path)] if os.path.exists(path) else []
    if os.WIFSIGNALED(status):
        return lines, "killed by signal %d" % os.WTERMSIG(status), ""
    code = os.WEXITSTATUS(status)
    text = ""
    if code == 3:
        text = open(err).read()
        if text.startswith("GAP"):
            raise RuntimeError("the stand-in lacks something: " + text)
    return lines, {0: "done", 9: "stopped", 3: "error"}.get(code, "exit %d" % code), text


# ---- outside


class Setup:
    """Arguments of a run and what is expected of it."""

    def __init__(self, ctx, r, data, nodes, **fixed):
        self.r = r
        f = fixed.get
        self.trainer = f("trainer", "base")
        self.ranks = f("ranks", 1)
        self.batch = f("batch") or r.choice([1, 2, 3, 4])
        self.workers = r.choice([0, 1, 2, 3]) if f("workers") is None else f("workers")
        shards = self.ranks * max(1, self.workers)
        full = shards * self.batch
        most = min(nodes, 14 * self.batch * self.ranks)
        if self.ranks > 1 or r.random() < 0.4:
            self.last = max(full, most // full * full)
        else:
            self.last = max((shards - 1) * self.batch + 1, r.randint(most // 2, most))
        assert self.last <= nodes
        self.epochs = f("epochs") or r.choice([1, 2, 3, 4])
        self.by_steps = r.choice([0, 1, 2, 3, 5]) if f("by_steps") is None else f("by_steps")
        self.by_epochs = f("by_epochs") or r.choice([1, 1, 1, 2])
        self.keep = r.choice([0, 0, 1, 2, 3]) if f("keep") is None else f("keep")
        steps = -(-self.last // (self.batch * self.ranks))
        self.max_steps = r.randint(1, steps) if r.random() < 0.35 and f("limit", True) else 0
        self.clip = r.choice([0, 0, 0.5, 4.0])
        self.eval_by = f("eval_by", 0)
        self.eval_range = f("eval_range")
        self.per_step = r.random() < 0.4
        self.gpu = f("gpu", False)
        self.fp16 = r.choice(["amp", "apex", "no"])
        self.form = r.choice(["flat", "flat", "dict", "list", "deep"])
        self.lr = 0.125
        self.warmup = r.choice([0.0, 0.25, 0.5])
        self.mtime = f("mtime", False)
        self.prefetch = f("prefetch", False)
        self.data = data

    def cfg(self, model_dir, save_path, mode="train", range_=None, epochs=None):
        argv = ["--data_dir", self.data, "--mode", mode, "--trainer", self.trainer, "--model_dir", model_dir, "--save_path", save_path, "--metric_dir", save_path + "-metrics",
                "--num_epochs", str(epochs or self.epochs), "--batch_size", str(self.batch), "--data_parallel_num", str(self.workers),
                "--save_ckpt_by_steps", str(self.by_steps), "--save_ckpt_by_epochs", str(self.by_epochs), "--max_saved_ckpts", str(self.keep),
                "--learning_rate", str(self.lr), "--warmup", str(self.warmup), "--log_by_steps", "1", "--eval_during_train_by_steps", str(self.eval_by)]
        if self.max_steps:
            argv += ["--max_samples", str(self.max_steps * self.batch * self.ranks + self.r.randint(0, self.batch * self.ranks - 1))]
        if self.clip:
            argv += ["--clip_grad", "--grad_max_norm", str(self.clip)]
        argv += ["--fp16", self.fp16] + (["--gpu"] if self.gpu else [])
        if self.per_step:
            argv.append("--use_per_step_metrics")
        if self.mtime:
            argv.append("--sort_ckpt_by_mtime")
        return {"argv": argv, "ranks": self.ranks, "range": range_ or (0, self.last), "eval_range": self.eval_range, "prefetch": self.prefetch, "form": self.form}

    def case(self):
        return {k: v for k, v in vars(self).items() if k not in ("r", "data")}


def forwards(lines, rank, training=True):
    return [x for x in lines if x["op"] == "forward" and x["rank"] == rank and x["training"] == training]


def same(a, b):
    return np.allclose(a, b, rtol=1e-9, atol=1e-12)


class Course:
    """The batches and parameters of an uninterrupted run, established from its batches."""

    def __init__(self, ctx, s, feats, lines, case):
        self.ctx, self.s = ctx, s
        ranks = range(s.ranks)
        seen = [forwards(lines, k) for k in ranks]
        total = len(seen[0])
        if any(len(x) != total for x in seen):
            ctx.fail("ranks process different numbers of batches", str([len(x) for x in seen]), case)
        if total == 0 or total % s.epochs:
            ctx.fail("a training run does not have the same number of batches in every epoch", "%d batches in %d epochs" % (total, s.epochs), case)
        self.per = total // s.epochs
        self.total = total
        self.ids = [[tuple(x["ids"]) for x in seen[k]] for k in ranks]
        # Every node once in an epoch.
        for e in range(s.epochs):
            got = [i for k in ranks for b in self.ids[k][e * self.per : (e + 1) * self.per] for i in b if i != -1]
            if len(set(got)) != len(got):
                ctx.fail("an epoch repeats nodes", "epoch %d: %s" % (e, sorted(got)), case)
            if s.max_steps:
                if self.per != s.max_steps:
                    ctx.fail("an epoch does not have the stated number of samples", "%d batches instead of %d" % (self.per, s.max_steps), case)
            elif sorted(got) != list(range(s.last)):
                ctx.fail("an epoch leaves nodes out", "epoch %d: %d of %d" % (e, len(got), s.last), case)
            if any(self.ids[k][e * self.per : (e + 1) * self.per] != self.ids[k][: self.per] for k in ranks):
                ctx.fail("epochs have different batches", "epoch %d" % e, case)
        # Parameters before every batch, and at the end.
        w = np.full(DIM, 1.0)
        self.w = []
        for i in range(total):
            self.w.append(w)
            g = sum(np.mean([feats[j] if j != -1 else np.zeros(DIM) for j in self.ids[k][i]], axis=0) for k in ranks)
            grads = [g / s.ranks]
            if s.clip and (s.trainer != "hvd" or (s.gpu and s.fp16 != "no")):
                norm = float(np.sqrt((grads[0] ** 2).sum()))
                grads = [grads[0] * min(1.0, s.clip / (norm + 1e-6))]
            elif s.clip:
                # Horovod averages what every rank has clipped.
                parts = [np.mean([feats[j] if j != -1 else np.zeros(DIM) for j in self.ids[k][i]], axis=0) for k in ranks]
                grads = [sum(p * min(1.0, s.clip / (float(np.sqrt((p**2).sum())) + 1e-6)) for p in parts) / s.ranks]
            w = fold(w, grads[0])
        self.w.append(w)
        self.judge(lines, 0, total, case, "a run")

    def judge(self, lines, start, executed, case, who):
        """The batches and parameters of a run beginning at a position."""
        for k in range(self.s.ranks):
            for n, x in enumerate(forwards(lines, k)):
                p = start + n
                if p >= self.total:
                    self.ctx.fail("%s goes on after its last epoch" % who, "batch %s" % x["ids"], case)
                if tuple(x["ids"]) != self.ids[k][p]:
                    self.ctx.fail("%s processes the wrong batch" % who, "rank %d position %d of %d (%d per epoch): %s instead of %s" % (k, p, self.total, self.per, x["ids"], self.ids[k][p]), case)
                if not same(x["w"], self.w[p]):
                    self.ctx.fail("%s has the wrong parameters" % who, "rank %d position %d of %d: %s instead of %s" % (k, p, self.total, x["w"], self.w[p].tolist()), case)
                if not x["grad"]:
                    self.ctx.fail("%s trains without gradients" % who, "", case)
            self.ctx.count("batches", len(forwards(lines, k)))
        for x in lines:
            if x["op"] == "end" and not same(x["w"], self.w[self.total]):
                self.ctx.fail("%s ends with the wrong parameters" % who, "rank %d: %s instead of %s" % (x["rank"], x["w"], self.w[self.total].tolist()), case)
            if x["op"] == "save" and x["rank"]:
                self.ctx.fail("a rank other than the first writes a checkpoint", str(x), case)
        self.files(lines, start, case)

    def files(self, lines, start, case):
        """As many checkpoints as asked for, once the run has stored one of its own."""
        keep = self.s.keep
        saves = 0
        for x in lines:
            saves += x["op"] == "save"
            if x["op"] == "removed" and x["path"].endswith(".pt") and not x["path"].startswith("."):
                self.ctx.count("deleted")
                if not keep:
                    self.ctx.fail("a checkpoint is deleted although all are to be kept", x["path"], case)
            if x.get("files") is None:
                continue
            n = len(x["files"])
            if keep and saves and n > keep:
                self.ctx.fail("more checkpoints are kept than asked for", "%d instead of %d: %s" % (n, keep, x["files"]), case)
            if start == 0 and n < (min(keep, saves) if keep else saves):
                self.ctx.fail("fewer checkpoints are kept than asked for", "%d after %d were stored, %d to keep: %s" % (n, saves, keep, x["files"]), case)

    def due(self, p):
        """Whether a run that has gone past p batches has stored that state."""
        s = self.s
        step, epoch = p % self.per, p // self.per
        if p == 0:
            return False
        if step == 0:
            return s.by_epochs == 1 or (s.by_steps and self.per % s.by_steps == 0 and not s.max_steps)
        return bool(s.by_steps and step % s.by_steps == 0)

    def position(self, lines, case):
        """Where a restarted run begins; None when it had nothing left to do."""
        places = []
        for k in range(self.s.ranks):
            f = forwards(lines, k)
            if not f:
                places.append(None)
                continue
            at = [p for p in range(self.total) if self.ids[k][p] == tuple(f[0]["ids"]) and same(f[0]["w"], self.w[p])]
            if not at:
                self.ctx.fail("a restarted run begins in a state the interrupted run never had", "rank %d: batch %s with parameters %s" % (k, f[0]["ids"], f[0]["w"]), case)
            places.append(at[0])
        got = set(p for p in places if p is not None)
        if len(got) > 1:
            self.ctx.fail("ranks restart at different positions", str(places), case)
        return got.pop() if got else None


def bad_end(ctx, how, text, case, what):
    if how == "error":
        name = text.split(":")[0]
        ctx.fail("%s raised %s" % (what, name), text[-1800:], case)
    ctx.fail("%s ended with %s" % (what, how), "", case)


def interrupted(ctx, course, s, dirs, stop, case, r, log):
    """Stops a run, maybe its successor too, and lets the last one finish."""
    reached = 0  # Batches whose processing has begun in any run.
    start, floor = 0, 0
    points = [stop] + ([r.randint(1, max(1, stop))] if r.random() < 0.25 else []) + [0]
    for n, point in enumerate(points):
        ctx.at({"op": "training run", "stop": point, **case})
        lines, how, text = launch(ctx, s.cfg(*dirs), log, point)
        who = "a restarted run" if n else "a run"
        if how not in ("done", "stopped"):
            bad_end(ctx, how, text, case, "restarting" if n else "training")
        if n:
            p = course.position(lines, case)
            if p is None:
                if how == "stopped":
                    p = start = None
                else:
                    ends = [x for x in lines if x["op"] == "end"]
                    if not ends or not all(same(x["w"], course.w[course.total]) for x in ends):
                        ctx.fail("a restarted run does nothing although work is left", "stopped after %d of %d batches; ends with %s" % (reached, course.total, [x["w"] for x in ends]), case)
                    p = course.total
            if p is not None:
                if p < floor:
                    ctx.fail("a restarted run loses work that was stored", "begins after %d of %d batches (%d per epoch), the state after %d was stored; the run before ended at %s" % (p, course.total, course.per, floor, why), case)
                if p > reached:
                    ctx.fail("a restarted run leaves batches out", "begins after %d batches, only %d had begun" % (p, reached), case)
                start = p
                if 0 < p < course.total:
                    ctx.count("restarted in the middle")
        if start is None:
            start = floor
            continue
        course.judge(lines, start, 0, case, who)
        begun = start + min(len(forwards(lines, k)) for k in range(s.ranks))
        most = start + max(len(forwards(lines, k)) for k in range(s.ranks))
        if how == "done":
            if most != course.total:
                ctx.fail("%s ends before its last epoch" % who, "after %d of %d batches" % (most, course.total), case)
            break
        stopped = [x for x in lines if x["op"] == "stop"]
        why = stopped[0]["event"]
        ctx.count("stopped")
        if why.split()[0] in ("save", "before", "after"):
            ctx.count("stopped while saving")
        # The last batch may have been counted in or not when the run ended; states before it are settled for the first rank.
        first = start + len(forwards(lines, 0))
        reached = max(reached, most)
        for p in range(1, first):
            if course.due(p) and p > floor and p > start:
                floor = p
        finished = (first - 1) // course.per
        if finished >= s.by_epochs:
            # At most the stated number of epochs is lost.
            floor = max(floor, (finished - s.by_epochs + 1) * course.per)
    ctx.case((json.dumps(case, sort_keys=True), stop), True, {"stopped at": stop, "event": why if stop else "", "resumed after": start, "of": course.total})


def build_graph(ctx, r, nodes=48):
    import gmodel

    g = gmodel.Graph(None)
    feats = {}
    for i in range(nodes):
        v = np.array([r.randint(-64, 64) / 8 for _ in range(DIM)], dtype=np.float32)
        feats[i] = v.astype(np.float64)
        g.nodes[i] = gmodel.Node(i, 0, 1.0, {0: gmodel.Feat("dense", "float32", v.tolist())})
    path = os.path.join(ctx.scratch, "graph%d" % r.randint(0, 10**9))
    gmodel.convert(g, path, 1)
    return path, feats




def fresh(ctx, n=[0]):
    n[0] += 1
    d = os.path.join(ctx.scratch, "run%d" % n[0])
    os.makedirs(d)
    return d


def rates(ctx, s, course, lines, case):
    """The learning rate rises from zero, then falls to zero; it is constant without a stated number of samples."""
    got = [x["lr"] for x in lines if x["op"] == "lr" and x["rank"] == 0]
    total = course.total
    warm = s.warmup * total
    for k, lr in enumerate(got):
        want = s.lr
        if s.max_steps:
            want *= k / max(1, warm) if k < warm else max(0.0, (total - k) / max(1, total - warm))
        if not np.isclose(lr, want, rtol=1e-9, atol=1e-15):
            ctx.fail("a step has the wrong learning rate", "step %d of %d, warmup %s: %r instead of %r" % (k, total, s.warmup, lr, want), case)
    if s.max_steps:
        ctx.count("learning rates", len(got))


def losses(ctx, s, course, feats, lines, case):
    """Losses reported for training steps."""
    got = [x for x in lines if x["op"] == "scalar" and x["tag"] == "Training/Loss" and x["where"].endswith("-0")]
    if len(got) != course.total:
        ctx.fail("a step is not reported", "%d reports of %d steps" % (len(got), course.total), case)
    for n, x in enumerate(got):
        want = sum(feats[j].sum() for j in course.ids[0][n] if j != -1)
        if not np.isclose(x["value"], want, rtol=1e-5, atol=1e-5) or x["step"] != n + 1:
            ctx.fail("a report of a step is wrong", "step %d: %s instead of %s" % (n + 1, x, want), case)


def reference(ctx, s, feats, case, log, what="training"):
    d = fresh(ctx)
    lines, how, text = launch(ctx, s.cfg(d, d), log)
    if how != "done":
        bad_end(ctx, how, text, case, what)
    course = Course(ctx, s, feats, lines, case)
    rates(ctx, s, course, lines, case)
    losses(ctx, s, course, feats, lines, case)
    if s.gpu:
        ctx.count("devices")
    if s.workers:
        ctx.count("workers")
    return course, lines, d


def count_events(ctx, s, log, case):
    """Number of places where the run can be stopped: the last one it still reaches."""
    d = fresh(ctx)
    cfg = dict(s.cfg(d, d), tally=True)
    lines, how, text = launch(ctx, cfg, log)
    if how != "done":
        bad_end(ctx, how, text, case, "training")
    return [x for x in lines if x["op"] == "tally"][0]["n"]


def trainings(job, ctx, r, log):
    for c in range(job["configs"]):
        data, feats = build_graph(ctx, r)
        if job["mode"] == "ranks":
            s = Setup(ctx, r, data, len(feats), trainer=job["trainer"], ranks=r.choice([2, 3]), batch=r.choice([1, 2]), workers=r.choice([0, 1, 2]), gpu=r.random() < 0.4)
            ctx.count("several ranks")
        else:
            s = Setup(ctx, r, data, len(feats), prefetch=r.random() < 0.25, trainer=r.choice(["base", "base", "base", "ddp", "hvd"]), gpu=r.random() < 0.3)
        case = s.case()
        course, lines, _ = reference(ctx, s, feats, case, log)
        n = count_events(ctx, s, log, case)
        stops = list(range(1, n + 1))
        if len(stops) > job["stops"]:
            # The events around saving are among the last of every step.
            stops = sorted(r.sample(stops, job["stops"]))
        for stop in stops:
            d = fresh(ctx)
            interrupted(ctx, course, s, (d, d), stop, case, r, log)
            import shutil

            shutil.rmtree(d, ignore_errors=True)


def expect_metric(s, feats, batches, ws, per_step):
    """Metric of one rank over its batches."""
    vals, preds, labels = [], [], []
    for ids in batches:
        p = [(feats[i].sum() if i != -1 else 0.0) + ws.sum() for i in ids]
        vals.append(np.mean(p) + 1000.0 * np.mean(ids))
        preds += p
        labels += list(ids)
    return np.mean(vals) if per_step else np.mean(preds) + 1000.0 * np.mean(labels)


def covers(ctx, got, last, case, what):
    """Batches of all ranks: every node once."""
    ids = sorted(i for x in got for i in x["ids"] if i != -1)
    if ids != list(range(last)):
        ctx.fail("%s does not cover the data once" % what, "%d nodes seen, %d different, %d wanted" % (len(ids), len(set(ids)), last), case)


def still(ctx, got, w, case, what):
    for x in got:
        if x["training"] or x["grad"]:
            ctx.fail("%s runs the model in training mode" % what, str({k: x[k] for k in ("training", "grad")}), case)
        if not same(x["w"], w):
            ctx.fail("%s uses the wrong parameters" % what, "%s instead of %s" % (x["w"], np.asarray(w).tolist()), case)


def evaluations(job, ctx, r, log):
    for c in range(job["configs"]):
        data, feats = build_graph(ctx, r)
        trainer = ["base", "ddp", "hvd"][c % 3]
        ranks = 1 if trainer == "base" else r.choice([1, 2, 2, 3])
        batch, workers = r.choice([1, 2, 3]), r.choice([0, 1, 2])
        n = batch * ranks * max(1, workers) * r.randint(1, 2)
        s = Setup(ctx, r, data, len(feats), trainer=trainer, ranks=ranks, batch=batch, workers=workers, eval_by=r.choice([1, 2, 3]), eval_range=(0, n), epochs=r.choice([1, 2]), by_epochs=1, gpu=r.random() < 0.3)
        case = s.case()
        course, lines, d = reference(ctx, s, feats, case, log)
        # Evaluations while training: all of the data, and training goes on as without them.
        want = [p for p in range(1, course.total + 1) if ((p - 1) % course.per + 1) % s.eval_by == 0]
        for k in range(ranks):
            mine, blocks = [x for x in lines if x["op"] == "forward" and x["rank"] == k], {}
            done = 0
            for x in mine:
                if x["training"]:
                    done += 1
                else:
                    blocks.setdefault(done, []).append(x)
            if sorted(blocks) != want:
                ctx.fail("evaluations while training come at the wrong steps", "after %s instead of %s batches" % (sorted(blocks), want), case)
            for p, got in blocks.items():
                still(ctx, got, course.w[p], case, "an evaluation while training")
            if k == 0:
                every = {p: list(b) for p, b in blocks.items()}
            else:
                for p, b in blocks.items():
                    every[p] += b
        for p, got in every.items():
            covers(ctx, got, n, case, "an evaluation while training")
            ctx.count("evaluations")
        if ranks > 1:
            ctx.count("evaluations of several ranks")
        if s.per_step:
            got = [x for x in lines if x["op"] == "scalar" and x["tag"] == "Validation/Loss" and x["where"].endswith("-0")]
            if [x["step"] for x in got] != want:
                ctx.fail("evaluations while training are reported at the wrong steps", "%s instead of %s" % ([x["step"] for x in got], want), case)
            for x in got:
                nb = len(every[x["step"]])
                full = sum(feats[i].sum() for i in range(n)) / nb
                if not np.isclose(x["value"], full, rtol=1e-5, atol=1e-5):
                    ctx.fail("an evaluation while training reports the wrong loss", "%s instead of %s" % (x["value"], full), case)
        # Evaluation and inference with the final parameters.
        final = course.w[course.total]
        last = s.last
        for mode in ("evaluate", "inference"):
            out = fresh(ctx)
            s2 = s
            s2.eval_range = None
            cfg = s2.cfg(d, out, mode=mode)
            cfg["direct"] = mode == "evaluate"
            ctx.at({"op": mode, **case})
            lines, how, text = launch(ctx, cfg, log)
            if how != "done":
                bad_end(ctx, how, text, case, mode)
            op = "forward" if mode == "evaluate" else "embed"
            got = [x for x in lines if x["op"] == op]
            still(ctx, got, final, case, mode)
            if s.max_steps:
                for k in range(ranks):
                    m = [x for x in got if x["rank"] == k]
                    if [tuple(x["ids"]) for x in m] != course.ids[k][: s.max_steps]:
                        ctx.fail("%s processes the wrong batches" % mode, str([x["ids"] for x in m]), case)
            else:
                covers(ctx, got, last, case, mode)
            if mode == "evaluate":
                per_rank = [expect_metric(s, feats, [x["ids"] for x in got if x["rank"] == k], final, s.per_step) for k in range(ranks)]
                for x in lines:
                    if x["op"] == "result" and not np.isclose(x["value"], np.mean(per_rank), rtol=1e-6):
                        ctx.fail("an evaluation returns the wrong metric", "%r instead of %r" % (x["value"], np.mean(per_rank)), case)
                ctx.count("evaluations")
            else:
                for k in range(ranks):
                    rows = [x.split() for x in open(os.path.join(out, "embedding-%d.tsv" % k))]
                    ids = [i for x in got if x["rank"] == k for i in x["ids"]]
                    if [int(x[0]) for x in rows] != ids:
                        ctx.fail("embeddings are written for the wrong nodes", "%s instead of %s" % ([x[0] for x in rows], ids), case)
                    for row, i in zip(rows, ids):
                        want = (feats[i] if i != -1 else np.zeros(DIM)) + final
                        if not np.allclose([float(v) for v in row[1:]], want, rtol=1e-6):
                            ctx.fail("an embedding is wrong", "node %d: %s instead of %s" % (i, row[1:], want.tolist()), case)
                ctx.count("inferences")
            ctx.case((json.dumps(case, sort_keys=True), mode), True, {"mode": mode, "batches": len(got)})


def by_time(job, ctx, r, log):
    """The newest checkpoint is the last written one when asked for."""
    for c in range(job["configs"]):
        data, feats = build_graph(ctx, r)
        s = Setup(ctx, r, data, len(feats), by_steps=r.choice([1, 2]), by_epochs=1, keep=0, epochs=2, limit=False, batch=r.choice([2, 3]), mtime=True)
        case = s.case()
        course, lines, d = reference(ctx, s, feats, case, log)
        where, known, n = {}, set(), 0
        for x in lines:
            if x["op"] == "forward":
                for f in set(x["files"]) - known:
                    where[f] = n
                known |= set(x["files"])
                n += 1
        names = sorted(where)
        if len(names) < 3:
            ctx.fail("a run stores fewer checkpoints than asked for", str(names), case)
        for keep in (0, 2):
            chosen = r.choice(names[:-1])
            now = time.time()
            for f in os.listdir(d):
                age = 100 if f == chosen else r.randint(2000, 9000)
                os.utime(os.path.join(d, f), (now - age, now - age))
            s.keep = keep
            case = s.case()
            ctx.at({"op": "restart by time", **case})
            import shutil

            d2 = fresh(ctx)
            shutil.rmtree(d2)
            shutil.copytree(d, d2)
            lines2, how, text = launch(ctx, s.cfg(d2, d2), log)
            if how != "done":
                bad_end(ctx, how, text, case, "restarting")
            p = course.position(lines2, case)
            if p != where[chosen]:
                ctx.fail("the last written checkpoint is not used", "begins after %s batches, the last written has %d" % (p, where[chosen]), case)
            course.judge(lines2, p, 0, case, "a restarted run")
            if keep:
                saves = 0
                for x in lines2:
                    saves += x["op"] == "save"
                    if saves == 1 and x.get("files") is not None:
                        if chosen not in x["files"]:
                            ctx.fail("rotation deletes a checkpoint newer than a kept one", "%s was newest; left: %s" % (chosen, x["files"]), case)
                        break
            ctx.count("by time")
            ctx.case((json.dumps(case, sort_keys=True), chosen, keep), True, {"chosen": chosen, "begins": p})


def long_run(job, ctx, r, log):
    steps = job["mode"] == "steps"
    d = fresh(ctx)
    argv = ["--data_dir", d, "--model_dir", d, "--save_path", d, "--metric_dir", d, "--log_by_steps", "0", "--max_saved_ckpts", str(r.choice([2, 3])), "--mode", "train"]
    if steps:
        batches, at, floor = 1000020, 1000000 + r.randint(1, 15), 1000000
        argv += ["--num_epochs", "1", "--save_ckpt_by_steps", "250000"]
    else:
        batches = r.choice([1, 2])
        at = batches * r.randint(1001, 1020)
        floor = at
        argv += ["--num_epochs", "1024"]
    total = batches * (1 if steps else 1024)
    case = {"batches": batches, "stop": at}
    cfg = {"argv": argv, "plain": True, "batches": batches, "stop_at": at}
    ctx.at({"op": "long run", **case})
    lines, how, text = launch(ctx, cfg, log)
    if how != "stopped":
        bad_end(ctx, how, text, case, "training")
    cfg["stop_at"] = None
    lines, how, text = launch(ctx, cfg, log)
    if how != "done":
        bad_end(ctx, how, text, case, "restarting")
    seen = [x for x in lines if x["op"] == "seen"]
    w = seen[0]["w"][0] if seen else None
    if w is None or w < floor or w > at:
        ctx.fail("a restarted long run does not begin at the last stored state", "begins after %s batches instead of %d" % (w, floor), case)
    end = [x for x in lines if x["op"] == "end"][0]["w"][0]
    if end != total:
        ctx.fail("a restarted long run processes the wrong number of batches", "%s instead of %s" % (end, total), case)
    ctx.count("long")
    ctx.case(("long", steps, batches, at), True, {"begins": w, "end": end})


def run(job, ctx):
    import faketorch

    faketorch.install()
    import deepgnn.pytorch.training.factory
    import deepgnn.pytorch.training.trainer_ddp
    import deepgnn.pytorch.training.trainer_hvd

    r = ctx.rng(job["name"])
    log = os.path.join(ctx.scratch, "log")
    {"base": trainings, "ranks": trainings, "eval": evaluations, "mtime": by_time, "epochs": long_run, "steps": long_run}[job["mode"]](job, ctx, r, log)
