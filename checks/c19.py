"""Prefetching: same batches as direct iteration, errors reach the consumer, threads end."""
import collections
import gc
import json
import os
import subprocess
import sys
import threading
import time

import numpy as np

LEVEL = "exploration"
RULE = "one case is one prefetched iteration with given batch count, queue, thread counts, speeds, failure and way to end; it is nontrivial when at least one batch was delivered or one failure seen, and distinct by configuration"
ASSUMPTIONS = [
    "order is compared when one thread prepares batches; several threads may finish in any order",
    "one reading thread per generator, as datasets create it",
    "a hang is a process in which nothing runs and nothing progresses over 12 seconds of samples, or which burns 40 CPU seconds without progress",
    "when one of the batches fails, batches prepared in parallel may be delivered or not",
]
NEED = {"batches": 5000, "failures_seen": 100, "abandoned": 100, "empty": 20, "marker_first": 50, "threads_ended": 500, "exits": 2, "dataset_epochs": 30}


def plan(tier, seed):
    n, k = (5, 220) if tier == "quick" else (10, 1500)
    jobs = [{"name": "g%d" % i, "cases": k, "quiet_samples": 24, "spin_ticks": 40 * os.sysconf("SC_CLK_TCK")} for i in range(n)]
    jobs += [{"name": "data%d" % i, "mode": "dataset", "cases": k // 4, "quiet_samples": 24, "spin_ticks": 40 * os.sysconf("SC_CLK_TCK")} for i in range(1 if tier == "quick" else 3)]
    jobs += [{"name": "exit", "mode": "exit", "cases": 6 if tier == "quick" else 24}]
    return jobs


def run(job, ctx):
    mode = job.get("mode")
    r = ctx.rng(job["name"])
    if mode == "exit":
        exits(ctx, r, job["cases"])
        return
    for k in range(job["cases"]):
        with ctx.trial():
            if mode == "dataset":
                dataset_case(ctx, r)
            else:
                Case(ctx, r).run()


class Boom(Exception):
    pass


class Sampler:
    """Batches 0..n-1, with delays and possibly a failure."""

    def __init__(self, case):
        self.case = case

    def __iter__(self):
        return self.go()

    def go(self):
        c = self.case
        for i in range(c.n):
            if c.cfg["fail"] == "sampler" and i == c.cfg["fail_at"]:
                raise Boom(c.token)
            c.pause(c.cfg["slow_sampler"])
            c.handed += 1
            yield c.batches[i]
        if c.cfg["fail"] == "sampler" and c.cfg["fail_at"] >= c.n:
            raise Boom(c.token)
        c.exhausted.set()


class Case:
    def __init__(self, ctx, r):
        self.ctx, self.r = ctx, r
        self.n = r.choice([0, 0, 1, 1, 2, 3, 5, 8, 15, 19, 20, 21, 30, 40, 41, 100])
        self.cfg = {
            "batches": self.n,
            "queue": r.choice([1, 1, 2, 3, 10, 30, 200]),
            "threads": r.choice([1, 1, 2, 3, 10]),
            "slow_sampler": r.choice([0, 0, 0, 0.0005, 0.002]),
            "slow_query": r.choice([0, 0, 0.0005, 0.002]),
            "slow_consumer": r.choice([0, 0, 0.0005, 0.002]),
            "fail": r.choice([None, None, None, "query", "query", "sampler"]),
            "end": r.choice(["all", "all", "all", "break"]),
            "close": r.choice(["join", "join", "join twice", "del"]),
            "gate": False,
            "payload": r.choice(["array", "dict", "none", "index"]),
        }
        if self.n == 0 and self.cfg["fail"] == "query":
            self.cfg["fail"] = None
        self.cfg["fail_at"] = r.choice([0, self.n - 1, r.randrange(self.n + 1)]) if self.cfg["fail"] else None
        if self.cfg["fail"] == "query":
            self.cfg["fail_at"] = min(max(self.cfg["fail_at"], 0), self.n - 1)
        elif self.cfg["fail"]:
            self.cfg["fail_at"] = max(self.cfg["fail_at"], 0)
        if 0 < self.n <= 15 and self.cfg["fail"] != "sampler" and r.random() < 0.5:
            # Queries wait until the sampler is exhausted, so that its end is announced before any batch.
            self.cfg["gate"] = True
        self.stop_after = r.randint(0, self.n) if self.cfg["end"] == "break" else None
        self.cfg["stop_after"] = self.stop_after
        self.token = "failure-%d" % r.randrange(2**40)
        self.batches = [np.array([i, i + 1, r.randrange(2**40)], dtype=np.int64) for i in range(self.n)]
        self.exhausted = threading.Event()
        self.handed = 0
        self.queried = collections.Counter()
        self.lock = threading.Lock()
        self.delays = [r.random() for _ in range(97)]
        self.turn = 0
        self.marker = 0

    def pause(self, top):
        if top:
            self.turn += 1
            time.sleep(self.delays[self.turn % 97] * top)

    def query(self, graph, batch):
        i = int(batch[0])
        if self.cfg["gate"]:
            self.exhausted.wait()
            time.sleep(0.003)
        self.pause(self.cfg["slow_query"])
        with self.lock:
            self.queried[i] += 1
        if self.cfg["fail"] == "query" and i == self.cfg["fail_at"]:
            raise Boom(self.token)
        return self.answer(i)

    def answer(self, i):
        p = self.cfg["payload"]
        if p == "array":
            return self.batches[i] * 3
        if p == "dict":
            return {"inputs": self.batches[i] * 3}
        if p == "none":
            return None if i % 3 == 0 else i
        return i

    def key(self, x):
        if isinstance(x, dict) and list(x) == ["inputs"]:
            x = x["inputs"]
        if isinstance(x, np.ndarray):
            return tuple(x.tolist())
        if x is None or isinstance(x, int):
            return x
        return "%s object" % type(x).__name__

    def run(self):
        from deepgnn.graph_engine import prefetch

        ctx, cfg = self.ctx, self.cfg
        ctx.at({"op": "prefetch", "cfg": cfg})
        before = set(threading.enumerate())
        gen = prefetch.Generator(None, Sampler(self), self.query, prefetch_size=cfg["queue"], max_parallel=cfg["threads"])
        got, error, ended = [], None, False
        it = iter(gen)
        while self.stop_after is None or len(got) < self.stop_after:
            self.pause(cfg["slow_consumer"])
            try:
                got.append(next(it))
            except StopIteration:
                ended = True
                break
            except Exception as e:
                # Its traceback would keep the generator alive.
                error = e.with_traceback(None)
                break
            if len(got) > self.n + 5:
                break
        self.judge(got, error, ended)
        if ended or error is not None:
            # The iteration is over: asking again must not hang nor continue.
            ctx.at({"op": "next after the end", "cfg": cfg})
            for _ in range(2):
                try:
                    x = next(it)
                except StopIteration:
                    continue
                except Exception:
                    continue
                if ended:
                    ctx.fail("iteration continues after its end", repr(x), cfg)
                if self.key(x) not in {self.key(self.answer(i)) for i in range(self.n)}:
                    ctx.fail("something else than a batch delivered", repr(x), cfg)
        del it
        ctx.at({"op": "close", "cfg": cfg})
        self.exhausted.set()
        if cfg["close"] == "del":
            del gen
            gc.collect()
        else:
            gen.join()
            if cfg["close"] == "join twice":
                gen.join()
        self.threads(before)
        if self.stop_after is not None and not ended:
            ctx.count("abandoned")
        if self.n == 0:
            ctx.count("empty")
        if cfg["gate"]:
            ctx.count("marker_first")
        if max(self.queried.values(), default=0) > 1:
            ctx.fail("batch prepared twice", str(self.queried), cfg)
        ctx.count("batches", len(got))
        ctx.case(repr(sorted(cfg.items(), key=str)), bool(got) or error is not None, dict(cfg, delivered=len(got), error=type(error).__name__ if error else None))

    def judge(self, got, error, ended):
        ctx, cfg = self.ctx, self.cfg
        want = [self.key(self.answer(i)) for i in range(self.n)]
        have = [self.key(x) for x in got]
        extra = collections.Counter(have) - collections.Counter(want)
        if extra:
            x = next(iter(extra))
            ctx.fail("batch delivered twice" if x in want else "something else than a batch delivered", repr(x), cfg)
        if cfg["threads"] == 1 and have != self.ordered(want, len(have)):
            ctx.fail("batches out of order", "%s instead of %s" % (have[:10], want[:10]), cfg)
        if error is not None:
            if not cfg["fail"]:
                ctx.fail("iteration raised %s" % type(error).__name__, str(error)[-800:], cfg)
            ctx.count("failures_seen")
            if self.token not in str(error) and self.token not in repr(error.__cause__) and "after shutdown" not in str(error):
                ctx.fail("another error than the one of the batch", str(error)[-800:], cfg)
            return
        if ended:
            if cfg["fail"] and self.reached():
                ctx.fail("failure not reported", "%d of %d batches delivered, then a normal end" % (len(got), self.n), cfg)
            if len(got) != self.n:
                ctx.fail("batches lost", "%d instead of %d" % (len(got), self.n), cfg)

    def ordered(self, want, n):
        """The first n batches in order, skipping the failed one."""
        if self.cfg["fail"] == "query" and n > self.cfg["fail_at"]:
            want = want[: self.cfg["fail_at"]] + want[self.cfg["fail_at"] + 1 :]
        return want[:n]

    def reached(self):
        return self.cfg["fail"] == "sampler" or self.queried[self.cfg["fail_at"]] > 0

    def threads(self, before):
        # Threads are joined on release; the last instructions of an ended thread may still be under way.
        for _ in range(400):
            left = [t for t in threading.enumerate() if t not in before and t.is_alive()]
            if not left:
                self.ctx.count("threads_ended")
                return
            time.sleep(0.005)
        self.ctx.fail("threads left after the consumer is done", ", ".join(t.name for t in left), self.cfg)


def dataset_case(ctx, r):
    """The same dataset read directly and prefetched, over several epochs."""
    from deepgnn.graph_engine.graph_dataset import DeepGNNDataset
    from deepgnn.graph_engine import samplers

    kind = r.choice(["range", "csv", "text", "node"])
    n = r.choice([1, 2, 7, 16, 40])
    cfg = {"kind": kind, "size": n, "batch": r.choice([1, 2, 3, 8, 50]), "queue": r.choice([None, 1, 2, 10]), "threads": r.choice([None, 1, 1, 3])}
    ctx.at({"op": "dataset", "cfg": cfg})
    path = os.path.join(ctx.scratch, "ids.csv")
    with open(path, "w") as f:
        f.write("".join("%d\n" % i for i in range(1, n + 1)))
    kw = dict(batch_size=cfg["batch"], num_workers=1, worker_index=0)
    if kind == "range":
        kw.update(sampler_class=samplers.RangeNodeSampler, first=1, last=n + 1, backfill_id=-1)
    elif kind == "csv":
        kw.update(sampler_class=samplers.CSVNodeSampler, sample_file=path)
    elif kind == "text":
        kw.update(sampler_class=samplers.TextFileSampler, store_name="", filename=path, buffer_size=8)
    else:
        kw.update(sampler_class=samplers.FileNodeSampler, sample_files=path, epochs=r.choice([1, 2]))

    class Backend:
        graph = object()

    def query(graph, x):
        if graph is not Backend.graph:
            raise AssertionError("another graph")
        return [str(y) for y in np.asarray(x).reshape(-1)]

    direct = ctx.call("create", DeepGNNDataset, query_fn=query, backend=Backend(), case=cfg, **kw)
    if cfg["queue"]:
        kw["prefetch_queue_size"] = cfg["queue"]
    if cfg["threads"]:
        kw["prefetch_worker_size"] = cfg["threads"]
    fetched = ctx.call("create", DeepGNNDataset, query_fn=query, backend=Backend(), enable_prefetch=True, case=cfg, **kw)
    for epoch in range(r.choice([1, 2, 3])):
        want = [b for b in direct.__iter__()]
        it = iter(fetched)
        got = [b for b in it]
        it.join()
        ctx.count("dataset_epochs")
        same = got == want if cfg["threads"] == 1 else sorted(got) == sorted(want)
        if not same:
            ctx.fail("prefetched batches differ from direct ones", "epoch %d: %s instead of %s" % (epoch, got[:5], want[:5]), cfg)
        if kind != "text" and len(fetched) != len(want):
            ctx.fail("length of a prefetched dataset", "%d instead of %d" % (len(fetched), len(want)), cfg)
        ctx.count("batches", len(got))
    ctx.case(repr(sorted(cfg.items(), key=str)), True, cfg)


SCRIPT = """
import json, sys, threading
from deepgnn.graph_engine.prefetch import Generator
cfg = json.loads(sys.argv[1])
class S:
    def __iter__(self):
        i = 0
        while cfg["batches"] < 0 or i < cfg["batches"]:
            yield i
            i += 1
def main():
    global keep
    gen = Generator(None, S(), lambda g, x: x, prefetch_size=cfg["queue"], max_parallel=cfg["threads"])
    if cfg["keep"]:
        keep = gen
    for i, x in enumerate(gen):
        if i == cfg["stop"]:
            if cfg["how"] == "raise":
                raise RuntimeError("consumer failed")
            if cfg["how"] == "exit":
                sys.exit(3)
            return
main()
print("finished")
"""
CODES = {"raise": 1, "exit": 3, "return": 0}


def exits(ctx, r, cases):
    """A process whose consumer stops or fails in the middle has to end."""
    for k in range(cases):
        cfg = {"batches": r.choice([-1, 10, 1000]), "queue": r.choice([1, 3, 30]), "threads": r.choice([1, 3, 10]), "stop": r.choice([0, 1, 5]), "how": ["raise", "exit", "return"][k % 3], "keep": r.random() < 0.5}
        ctx.at({"op": "exit", "cfg": cfg})
        with ctx.trial():
            p = subprocess.Popen([sys.executable, "-c", SCRIPT, json.dumps(cfg)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            try:
                out, _ = p.communicate(timeout=20)
            except subprocess.TimeoutExpired:
                ticks = [cpu(p.pid)]
                for _ in range(10):
                    time.sleep(0.5)
                    ticks.append(cpu(p.pid))
                p.kill()
                out, _ = p.communicate()
                if ticks[0] == ticks[-1]:
                    ctx.fail("process does not end after its consumer", out.decode()[-600:], cfg)
                raise RuntimeError("process still running after 20 seconds")
            ctx.count("exits")
            if p.returncode != CODES[cfg["how"]]:
                ctx.fail("process ends in another way than its consumer", "exit code %d, %s" % (p.returncode, out.decode()[-600:]), cfg)
            ctx.case("exit %r" % sorted(cfg.items()), True, cfg)


def cpu(pid):
    with open("/proc/%d/stat" % pid) as f:
        fields = f.read().rsplit(")", 1)[1].split()
    return int(fields[11]) + int(fields[12])
