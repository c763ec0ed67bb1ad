"""Log messages and telemetry, compared with what reached the console and the service."""
import json
import os
import re
import subprocess
import sys
import threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

import vcommon

LEVEL = "exploration"
RULE = "one case is one program that logs from several threads; it is nontrivial when it sends training events, and distinct by its settings and the kinds of its messages"
ASSUMPTIONS = [
    "the monitoring service is a server on the loopback address that accepts what the real exporter posts",
    "programs end normally, so that the exporter may deliver what it holds",
]
BUILDS = []
NEED = {
    "programs": 20, "events sent": 50, "events kept back": 50, "plain messages": 100, "no service": 3, "own loggers": 3,
    "switched on later": 2, "switched off later": 2, "first use by threads": 6, "arguments left out": 10, "never set up": 3, "root handlers": 5, "training jobs": 15, "training jobs with several workers": 4,
}
LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]
KEYS = [
    ("event_type", "deepgnn.event_type", None), ("mode", "deepgnn.mode", None), ("model_name", "deepgnn.model", None),
    ("user_name", "deepgnn.user_name", ""), ("job_id", "deepgnn.job_id", ""), ("task_index", "deepgnn.worker_index", 0),
    ("worker_size", "deepgnn.num_workers", 1), ("platform", "deepgnn.platform", ""),
]
EVENTS = ["deepgnn.start_worker", "deepgnn.end_worker", "deepgnn.start_job", "deepgnn.end_job"]


def plan(tier, seed):
    big = tier == "thorough"
    jobs = [{"name": "log%d" % i, "rounds": 60 if big else 10} for i in range(6)]
    return jobs + [{"name": "worker%d" % i, "rounds": 80 if big else 12, "workers": True} for i in range(2)]


class Service:
    """Accepts posted records and keeps them."""

    def __init__(self):
        self.got = []
        self.lock = threading.Lock()
        outer = self

        class H(BaseHTTPRequestHandler):
            def do_POST(self):
                body = self.rfile.read(int(self.headers.get("Content-Length", 0)))
                items = json.loads(body)
                with outer.lock:
                    outer.got += items
                out = json.dumps({"itemsReceived": len(items), "itemsAccepted": len(items), "errors": []}).encode()
                self.send_response(200)
                self.send_header("Content-Type", "application/json")
                self.send_header("Content-Length", str(len(out)))
                self.end_headers()
                self.wfile.write(out)

            def log_message(self, *args):
                pass

        self.server = ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.server.daemon_threads = True
        self.thread = threading.Thread(target=self.server.serve_forever, daemon=True)
        self.thread.start()

    def close(self):
        self.server.shutdown()
        self.server.server_close()


def event(ctx, r, text):
    vals = {
        "event_type": r.choice(EVENTS), "mode": r.choice(["train", "evaluate", "inference"]), "model_name": "model%d" % r.randint(0, 99),
        "user_name": "user%d" % r.randint(0, 99), "job_id": "job%d" % r.randint(0, 99), "task_index": r.randint(1, 40),
        "worker_size": r.randint(41, 80), "platform": r.choice(["deepgnn.pytorch", "deepgnn.tensorflow"]),
    }
    keep = r.choice([3, 4, 6, 8, 8])
    names = ["event_type", "mode", "model_name", "user_name", "job_id", "task_index", "worker_size", "platform"]
    want = {}
    for i, n in enumerate(names):
        d = [k for k in KEYS if k[0] == n][0]
        want[d[1]] = vals[n] if i < keep else d[2]
    if keep < 8:
        ctx.count("arguments left out")
    named = r.randint(1, keep) if r.random() < 0.4 else keep
    args = [vals[n] for n in names[:named]]
    kwargs = {("key" if n == "event_type" else n): vals[n] for n in names[named:keep]}
    return {"kind": "event", "text": text, "args": args, "kwargs": kwargs}, want


def trial(ctx, r, k):
    service = Service()
    base = os.path.join(ctx.scratch, "p%d" % k)
    os.makedirs(base)
    # Every kind of program occurs in every run; the rest is left to chance.
    key = k % 5 != 1
    own = k % 5 == 2
    root = k % 5 == 3 or r.random() < 0.2
    first = k % 5 == 4
    phases, shown, sent = [], {}, {}
    serial = 0
    on = False
    ready = False
    kinds = set()
    count = r.choice([1, 2, 3])
    for p in range(count if k % 5 else 3):
        setup = r.choice([None, True, True, False, "default"])
        if k % 5 == 0:
            setup = [False, True, "default"][p]
        if first and p == 0:
            setup = None
        if setup is not None:
            was, on = on, setup is True and key and not own
            if p and on and not was:
                ctx.count("switched on later")
            if p and was and not on:
                ctx.count("switched off later")
        if setup is None and not ready:
            ctx.count("never set up")
        nt = 8 if first and p == 0 else r.choice([1, 2, 8])
        if nt > 1 and not ready and setup is None:
            ctx.count("first use by threads")
        ready = True
        threads = []
        for t in range(nt):
            steps = []
            for _ in range(r.choice([1, 3, 12])):
                serial += 1
                text = "message-%d-%d." % (k, serial)
                what = r.choice(["event", "event", "plain", "plain", "child", "error"])
                kinds.add(what)
                if what == "event":
                    s, want = event(ctx, r, text)
                    level = "INFO"
                    if on:
                        sent[text] = want
                        ctx.count("events sent")
                    else:
                        ctx.count("events kept back")
                else:
                    level = "ERROR" if what == "error" else r.choice(LEVELS)
                    s = {"kind": what, "text": text, "level": level}
                    ctx.count("plain messages")
                shown[text] = level
                steps.append(s)
            threads.append(steps)
        phases.append({"setup": setup, "threads": threads})
    if not key:
        ctx.count("no service")
    if own:
        ctx.count("own loggers")
    if root:
        ctx.count("root handlers")
    case = {"service configured": key, "own logger class": own, "root handler": root, "phases": [(p["setup"], [len(t) for t in p["threads"]]) for p in phases]}
    ctx.at({"op": "log", "case": case})
    json.dump({"switch": r.choice([1e-6, 1e-5, 5e-3]), "own": own, "root": root, "phases": phases}, open(os.path.join(base, "plan.json"), "w"))
    env = {a: b for a, b in os.environ.items() if not a.lower().endswith("_proxy") and not a.startswith(("APPLICATIONINSIGHTS", "APPINSIGHTS"))}
    env.update(TMPDIR=base, HOME=base, NO_PROXY="*", APPLICATIONINSIGHTS_STATSBEAT_DISABLED_ALL="true", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.path.join(vcommon.REPO, "src", "python"))
    if key:
        env["APPLICATIONINSIGHTS_CONNECTION_STRING"] = "InstrumentationKey=%s;IngestionEndpoint=http://127.0.0.1:%d" % ("12345678-1234-5678-abcd-12345678abcd", service.server.server_address[1])
    child = os.path.join(os.path.dirname(os.path.abspath(vcommon.__file__)), "logchild.py")
    try:
        p = subprocess.run([sys.executable, "-B", child, os.path.join(base, "plan.json"), os.path.join(base, "report.json")], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200, text=True)
    finally:
        service.close()
    err = p.stderr
    path = os.path.join(base, "report.json")
    if not os.path.exists(path):
        if vcommon.REPO in err:
            return ctx.violation("program that logs fails", "the program stopped with %s" % err[-400:], case)
        raise SystemExit("the program did not report: %s" % err[-400:])
    rep = json.load(open(path))
    ctx.count("programs")
    if rep["errors"]:
        return ctx.violation("logging fails", "a thread that logs got %s" % rep["errors"][0][-400:], case)
    if not rep["same"]:
        ctx.violation("several loggers", "threads were given different loggers", case)
    if rep["users"][0] != "someone" or not all(isinstance(u, str) and u for u in rep["users"]):
        ctx.violation("user name", "the user is %s, expected the name of the environment or some other name" % rep["users"], case)
    words = re.findall(r"message-\d+-\d+\.", err)
    lines = {}
    for line in err.splitlines():
        m = re.search(r"message-\d+-\d+\.", line)
        if m:
            lines[m.group(0)] = line
    if own:
        # The program set the level and the place of its messages itself.
        want = sorted(t for t, lv in shown.items() if lv in ("WARNING", "ERROR", "CRITICAL"))
        if sorted(rep["kept"]) != want or words:
            ctx.violation("own logging replaced", "handler of the program got %d messages of %d, the console %d" % (len(rep["kept"]), len(want), len(words)), case)
    else:
        for text, level in shown.items():
            n = words.count(text)
            if level == "DEBUG":
                if n:
                    ctx.violation("details shown", "a message for debugging appeared on the console", case)
            elif n != 1:
                ctx.violation("messages on the console", "a message of level %s appeared %d times on the console" % (level, n), case)
            elif level not in lines[text]:
                ctx.violation("messages on the console", "message of level %s appeared as %r" % (level, lines[text]), case)
    got = {}
    for item in service.got:
        data = item.get("data", {}).get("baseData", {})
        text = data.get("message", "")
        if text not in shown:
            m = re.search(r"message-\d+-\d+\.", json.dumps(item))
            if m:
                ctx.violation("plain messages sent", "the service received %r" % json.dumps(data)[:200], case)
            continue
        got.setdefault(text, []).append(data.get("properties", {}))
    for text in got:
        if text not in sent:
            ctx.violation("sent without consent", "the service received a message that was to stay here", case)
    for text, want in sent.items():
        rows = got.get(text, [])
        if len(rows) != 1:
            ctx.violation("events delivered", "the service received an event %d times" % len(rows), case)
            continue
        bad = {a: (rows[0].get(a), b) for a, b in want.items() if str(rows[0].get(a)) != str(b)}
        if bad:
            ctx.violation("contents of events", "an event arrived with %s (received, expected)" % bad, case)
    ctx.case((key, own, root, tuple((str(p["setup"]), len(p["threads"])) for p in phases), tuple(sorted(kinds))), "event" in kinds, {"case": case, "delivered": len(got), "shown": len(words)})


def train(argv, rank, world, name, batches):
    """One worker of a training job with a model of the given name."""
    import faketorch as ft
    import numpy as np
    from deepgnn.pytorch.training import factory

    if world is not None:
        ft.join_world(world, rank)
    args = factory.get_args(run_args=argv + ["--local_rank", str(rank)])
    trainer = factory.get_trainer(args)

    def __init__(self):
        ft.Module.__init__(self)
        self.w = ft.Parameter(np.zeros(1))
        self.metric = None

    def forward(self, data):
        z = ft.Tensor(np.zeros(1), lambda factor: setattr(self.w, "grad", ft.Tensor(np.ones(1))))
        return z, z, z

    def metric_name(self):
        return "none"

    def compute_metric(self, *args):
        return ft.Tensor(np.zeros(1))

    def get_embedding(self, data):
        return ft.Tensor(np.zeros((1, 2)))

    def output_embedding(self, *args, **kwargs):
        pass

    model = type(name, (ft.Module,), {"__init__": __init__, "forward": forward, "metric_name": metric_name, "compute_metric": compute_metric, "get_embedding": get_embedding, "output_embedding": output_embedding})()

    class Batches:
        def __iter__(self):
            return iter(range(batches))

    trainer.run(model, Batches(), ft.Optimizer(model.parameters(), lr=0.1) if args.mode.value == "train" else None)


def job_events(argv, ranks, name, batches):
    """Events of all workers of one job."""
    import logging

    import faketorch as ft
    from deepgnn import get_logger

    seen, errors = [], []

    class Catch(logging.Handler):
        def emit(self, record):
            if hasattr(record, "custom_dimensions"):
                seen.append(record.custom_dimensions)

    get_logger().addHandler(Catch())
    if ranks == 1 and "hvd" not in argv and "ddp" not in argv:
        train(argv, 0, None, name, batches)
        return seen
    os.environ.update(MASTER_ADDR="127.0.0.1", MASTER_PORT="1", RANK="0", WORLD_SIZE=str(ranks))
    world = ft.World(ranks)

    def work(k):
        try:
            train(argv, k, world, name, batches)
        except BaseException as e:
            errors.append(e)
        finally:
            world.leave()

    threads = [threading.Thread(target=work, args=(k,)) for k in range(ranks)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    errors.sort(key=lambda e: isinstance(e, ft.OutOfStep))
    if errors:
        raise errors[0]
    return seen


def workers(ctx, r, k):
    """Every worker of a training job reports its start and its end."""
    import faketorch as ft

    d = os.path.join(ctx.scratch, "w%d" % k)
    os.makedirs(d)
    trainer, mode = ["base", "hvd", "ddp"][k % 3], r.choice(["train", "train", "evaluate", "inference"])
    ranks = 1 if trainer == "base" else [2, 3, 1][k // 3 % 3]
    user, task, name = "user%d" % r.randint(0, 99), "job%d" % r.randint(0, 99), "Model%d" % r.randint(0, 99)
    argv = ["--data_dir", d, "--model_dir", d, "--save_path", d, "--metric_dir", d, "--mode", mode, "--trainer", trainer, "--num_epochs", "1", "--user_name", user, "--job_id", task]
    case = {"trainer": trainer, "mode": mode, "workers": ranks}
    ctx.at({"op": "training job", **case})
    path = os.path.join(d, "events.json")
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            fd = os.open(path + ".out", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            out = job_events(argv, ranks, name, r.choice([1, 3]))
            with open(path, "w") as f:
                json.dump(out, f)
            code = 0
        except BaseException as e:
            import traceback

            gap = isinstance(e, ft.Gap) or (isinstance(e, AttributeError) and "has no attribute" in str(e) and type(getattr(e, "obj", None)).__module__ in ("faketorch", "c38"))
            with open(path + ".err", "w") as f:
                f.write(("GAP " if gap else "") + traceback.format_exc())
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if status:
        text = open(path + ".err").read() if os.path.exists(path + ".err") else "status %d" % status
        if text.startswith("GAP") or vcommon.REPO not in text:
            raise RuntimeError("a training job ended with " + text)
        return ctx.violation("training job fails", text[-500:], case)
    got = json.load(open(path))
    ctx.count("training jobs")
    ctx.count("training jobs with several workers", ranks > 1)
    want = []
    for rank in range(ranks):
        for e in EVENTS[:2]:
            want.append({"deepgnn.event_type": e, "deepgnn.mode": mode, "deepgnn.model": name, "deepgnn.user_name": user, "deepgnn.job_id": task, "deepgnn.worker_index": rank, "deepgnn.num_workers": ranks, "deepgnn.platform": "deepgnn.pytorch"})
    text = lambda rows: sorted(json.dumps({a: str(x.get(a)) for a in want[0]}, sort_keys=True) for x in rows)
    if text(got) != text(want):
        ctx.violation("events of workers", "events are %s instead of %s" % (text(got), text(want)), case)
    # A worker reports its end after its start.
    for rank in range(ranks):
        mine = [x.get("deepgnn.event_type") for x in got if str(x.get("deepgnn.worker_index")) == str(rank)]
        if sorted(mine) == sorted(EVENTS[:2]) and mine != EVENTS[:2]:
            ctx.violation("events of workers", "worker %d reports %s" % (rank, mine), case)
    ctx.case((trainer, mode, ranks, k), True, {"case": case, "events": len(got)})


def run(job, ctx):
    r = ctx.rng(job["name"])
    if job.get("workers"):
        import faketorch

        faketorch.install()
        import deepgnn.pytorch.training.factory
        import deepgnn.pytorch.training.trainer_ddp
        import deepgnn.pytorch.training.trainer_hvd

        for k in range(job["rounds"]):
            with ctx.trial():
                workers(ctx, r, k)
        return
    for k in range(job["rounds"]):
        with ctx.trial():
            trial(ctx, r, k)
