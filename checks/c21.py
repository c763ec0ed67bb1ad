"""Distributed setup: partitions, server indices, client ranks and addresses over worker processes."""
import argparse
import collections
import json
import multiprocessing as mp
import os
import random
import shutil
import time

LEVEL = "exploration"
RULE = "one case is one assignment of partitions to servers or one start of all workers of a job; it is nontrivial when at least one server was started, and distinct by configuration"
ASSUMPTIONS = [
    "hosts are simulated by different loopback addresses; servers and clients are stand-ins that record what they were given",
    "workers of one job run the same number of processes on every host when the launcher tells local ranks",
    "polling pauses of the code are scaled down 50 times and directory listings come in random order",
    "tasks of a cluster that are not workers are not part of the check",
]
NEED = {"assignments": 60, "jobs": 60, "workers": 150, "detected": 20, "explicit": 20, "multi_host": 20, "real_assignments": 4}
PARALLEL = 6
SCALE = 0.02


def plan(tier, seed):
    n, k = (6, 20) if tier == "quick" else (6, 120)
    jobs = [{"name": "w%d" % i, "cases": k, "timeout": 800} for i in range(n)]
    jobs.append({"name": "parts", "mode": "parts", "limit": 13 if tier == "quick" else 24})
    jobs.append({"name": "real", "mode": "real", "config": "rel", "cases": 10 if tier == "quick" else 60})
    return jobs


BUILDS = ["rel"]


def run(job, ctx):
    r = ctx.rng(job["name"])
    mode = job.get("mode")
    if mode == "parts":
        partitions(ctx, r, job["limit"])
        return
    if mode == "real":
        for k in range(job["cases"]):
            with ctx.trial():
                real(ctx, r, k)
        return
    for k in range(job["cases"]):
        with ctx.trial():
            workers(ctx, r, k)


# ---- partitions of servers


def write_meta(folder, partitions):
    meta = {
        "binary_data_version": "v2",
        "node_count": 0,
        "edge_count": 0,
        "node_type_count": 1,
        "edge_type_count": 1,
        "node_feature_count": 0,
        "edge_feature_count": 0,
        "node_count_per_type": [0],
        "edge_count_per_type": [0],
        "watermark": -1,
        "partitions": {str(i): {"node_weight": [0.0], "edge_weight": [0.0]} for i in range(partitions)},
    }
    with open(os.path.join(folder, "meta.json"), "w") as f:
        json.dump(meta, f)


class FakeCall:
    def __init__(self, log, name):
        self.log, self.name = log, name

    def __call__(self, *args):
        self.log.append((self.name, args))
        return 0


class FakeLib:
    """Stand-in for the native library, records every call."""

    def __init__(self):
        self.log = []
        self.calls = {}

    def __getattr__(self, name):
        return self.calls.setdefault(name, FakeCall(self.log, name))


def text(x):
    return (x.value if hasattr(x, "value") else x).decode()


def started(ctx, lib, case, folder, host):
    """Partitions of the last started server."""
    calls = [args for name, args in lib.log if name == "StartServer"]
    if len(calls) != 1:
        ctx.fail("server not started once", "%d calls" % len(calls), case)
    del lib.log[:]
    args = calls[0]
    if text(args[1]) != folder or text(args[5]) != host:
        ctx.fail("server started with other settings", "%s %s" % (text(args[1]), text(args[5])), case)
    size = getattr(args[2], "value", args[2])
    for i in range(size):
        if text(args[4][i]) != folder:
            ctx.fail("partition of another folder", text(args[4][i]), case)
    return [int(args[3][i]) for i in range(size)]


def partitions(ctx, r, limit):
    import logging
    import runpy
    import subprocess
    import sys

    from deepgnn.graph_engine.snark import _lib

    lib = FakeLib()
    _lib._get_c_lib = lambda: lib
    from deepgnn.graph_engine.snark import distributed

    logging.disable(logging.CRITICAL)

    def interrupt(*args, **kwargs):
        raise KeyboardInterrupt()

    argv = sys.argv

    def command(index, shards, count, folder):
        sys.argv = ["server.py", "--port", "123", "--data_dir", folder, "--server_group", "%d,%d,%d" % (index, shards, count)]
        check_call, run = subprocess.check_call, subprocess.run
        subprocess.check_call = subprocess.run = interrupt
        try:
            runpy.run_module("deepgnn.graph_engine.snark.server", run_name="__main__")
        finally:
            subprocess.check_call, subprocess.run = check_call, run
            sys.argv = argv

    for count in range(1, limit):
        folder = os.path.join(ctx.scratch, "m%d" % count)
        os.makedirs(folder)
        write_meta(folder, count)
        for shards in range(1, limit):
            for way in ["class", "command"]:
                if way == "command" and r.random() < 0.7:
                    continue
                case = {"partitions": count, "servers": shards, "way": way}
                ctx.at({"op": "assign", "cfg": case})
                with ctx.trial():
                    seen = collections.Counter()
                    order = list(range(shards))
                    r.shuffle(order)
                    for index in order:
                        if way == "class":
                            host = "host:%d" % index
                            ctx.call("create server", distributed.Server, host, folder, index, shards, case=case)
                        else:
                            host = "0.0.0.0:123"
                            ctx.call("run server", command, index, shards, count, folder, case=case)
                        seen.update(started(ctx, lib, case, folder, host))
                    if seen != collections.Counter(range(count)):
                        ctx.fail("partitions are not served exactly once", "%s" % dict(seen), case)
                    ctx.count("assignments")
                    ctx.case("assign %s %d %d" % (way, count, shards), True, case)


def real(ctx, r, k):
    """Real servers on the partitions of a real graph: every node is found once."""
    import numpy as np
    import gmodel
    import native
    from deepgnn.graph_engine.snark import distributed

    count = r.choice([1, 2, 3, 5, 8])
    shards = r.choice([1, 2, 3, 4, 6])
    g = gmodel.random_graph(r, nodes=30, ntypes=2, etypes=2)
    out = os.path.join(ctx.scratch, "real%d" % k)
    os.makedirs(out)
    gmodel.convert(g, out, count, gmodel.even_assign(g, count))
    case = {"partitions": count, "servers": shards, "real": True}
    ctx.at({"op": "real servers", "cfg": case})
    servers, addresses = [], []
    for index in range(shards):
        addresses.append(native.address())
        servers.append(ctx.call("create server", distributed.Server, addresses[-1], out, index, shards, case=case))
    client = ctx.call("create client", distributed.Client, addresses, case=case)
    nodes = sorted(g.nodes)
    types = client.node_types(np.array(nodes, dtype=np.int64))
    for n, t in zip(nodes, types):
        if int(t) != g.nodes[n].type:
            ctx.fail("node not served", "node %d has type %d instead of %d" % (n, t, g.nodes[n].type), case)
    got = client.neighbors(np.array(nodes, dtype=np.int64), np.array(g.edge_types(), dtype=np.int32))
    if len(got[0]) != len(g.edges):
        ctx.fail("edges not served exactly once", "%d instead of %d" % (len(got[0]), len(g.edges)), case)
    client.reset()
    for s in servers:
        s.reset()
    native.clear()
    shutil.rmtree(out)
    ctx.count("real_assignments")
    ctx.case("real %d %d" % (count, shards), True, case)


# ---- workers


class Clock:
    def sleep(self, seconds):
        time.sleep(seconds * SCALE)

    def __getattr__(self, name):
        return getattr(time, name)


class FakeServer:
    """Stand-in for a graph server, running in the process of a server."""

    log = None

    def __init__(self, *args, **kwargs):
        names = ["hostname", "data_path", "index", "total_shards"]
        d = dict(zip(names, args), **{x: kwargs[x] for x in kwargs if x in names})
        line = json.dumps({"pid": os.getpid(), "args": d, "rank": FakeServer.rank}) + "\n"
        fd = os.open(FakeServer.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
        os.write(fd, line.encode())
        os.close(fd)

    def reset(self):
        pass


class FakeClient:
    def __init__(self, servers, *args, **kwargs):
        self.servers = list(servers)

    def reset(self):
        pass


def worker(spec, pipe, host, gate):
    """One worker process of a job: creates its backend, reports what it got, closes it."""
    import glob

    import socket

    from deepgnn.graph_engine.snark import distributed

    distributed.Server, distributed.Client = FakeServer, FakeClient
    from deepgnn.graph_engine.backends.options import BackendOptions
    from deepgnn.graph_engine.backends.snark import client, synchronized

    r = random.Random(spec["seed"])
    synchronized.time = Clock()

    class Socket(socket.socket):
        """Every host has its own primary address."""

        def connect(self, address):
            if self.type != socket.SOCK_DGRAM:
                super().connect(address)

        def getsockname(self):
            return (host, 1) if self.type == socket.SOCK_DGRAM else super().getsockname()

    socket.socket = Socket
    socket.gethostname = socket.getfqdn = lambda *a: host
    FakeServer.log = spec["log"]
    FakeServer.rank = spec["rank"]
    listing = glob.glob

    def shuffled(*args, **kwargs):
        res = listing(*args, **kwargs)
        r.shuffle(res)
        return res

    glob.glob = shuffled
    names = os.listdir

    def shuffled_names(*args):
        res = names(*args)
        r.shuffle(res)
        return res

    os.listdir = shuffled_names
    for key in list(os.environ):
        if key.startswith(("OMPI_", "HOROVOD_", "LOCAL_", "TF_CONFIG", "WORLD_SIZE", "RANK")):
            del os.environ[key]
    os.environ.update(spec["env"])
    time.sleep(spec["delay"])
    report = {"rank": spec["rank"], "host": host}
    try:
        hosts = None if spec["worker_hosts"] is None else list(spec["worker_hosts"])
        servers = None if spec["servers"] is None else list(spec["servers"])
        args = argparse.Namespace(data_dir=spec["data"], model_dir=spec["model"], servers=servers, server_idx=spec["server_idx"], client_rank=spec["client_rank"], num_ge=spec["num_ge"], ge_start_timeout=60, sync_dir=spec["sync"])
        if hosts is not None:
            args.worker_hosts, args.task_index = hosts, spec["task_index"]
        options = BackendOptions(args)
        if spec["create"]:
            from deepgnn.graph_engine.graph_dataset import create_backend, BackendType
            from deepgnn.graph_engine.backends.options import GraphType

            options.backend, options.graph_type = BackendType.SNARK, GraphType.REMOTE
            backend = create_backend(options, is_leader=spec["rank"] == 0)
        else:
            backend = client.SnarkDistributedBackend(options, is_leader=spec["rank"] == 0)
        report["servers"] = backend.graph.servers
        report["again"] = backend.graph is backend.graph
        if hosts is not None and hosts != spec["worker_hosts"]:
            report["modified"] = "worker hosts %s" % hosts
        if servers and servers != spec["servers"]:
            report["modified"] = "servers %s" % servers
        pipe.send(report)
        gate.wait()
        time.sleep(spec["hold"])
        backend.close()
        pipe.send("closed")
    except BaseException as e:
        import traceback

        report["error"] = type(e).__name__
        report["text"] = traceback.format_exc()[-1800:]
        pipe.send(report)
        os._exit(3)


LAUNCHERS = ["index", "ddp", "mpi", "horovod", "tf_config", "tf_args"]


def workers(ctx, r, k):
    base = os.path.join(ctx.scratch, "j%d" % k)
    data, model, log = os.path.join(base, "data"), os.path.join(base, "model"), os.path.join(base, "log")
    os.makedirs(data)
    os.makedirs(model)
    launcher = r.choice(LAUNCHERS)
    nodes = r.choice([1, 2, 2, 3, 4])
    local = r.choice([1, 1, 2, 3])
    explicit = r.random() < 0.5
    count = r.choice([1, 2, 3, 4, 6])
    if launcher == "index":
        local = 1
        if not explicit:
            # The number of servers comes from the options or the number of partitions, at most 4.
            if r.random() < 0.5:
                nodes = min(count, 4)
    write_meta(data, count)
    octets = r.sample(range(2, 250), nodes)
    hosts = ["127.0.0.%d" % x for x in octets]
    total = nodes * local
    # TF lists workers in any order, several per host and not always the same number.
    entries = []
    if launcher.startswith("tf"):
        for h in hosts:
            ports = r.sample([2000, 2001, 2022, 10000, 999], r.choice([1, 1, 2, 3]))
            entries += ["%s:%d" % (h, p) for p in ports]
        r.shuffle(entries)
        total = len(entries)
    servers = ["%s:%d" % (r.choice(hosts), 3000 + i) for i in range(nodes)] if explicit else r.choice([None, []])
    cfg = {"launcher": launcher, "hosts": nodes, "workers": total, "explicit": explicit, "partitions": count}
    top = r.choice([0.01, 0.1, 0.3])
    sync = r.choice(["", os.path.join(base, "sync")])
    specs = []
    # A task that is not a worker uses the servers and starts none.
    other = r.choice(["ps", "PS", "evaluator", "chief"]) if launcher == "tf_config" and explicit and r.random() < 0.6 else None
    cfg["other"] = other
    for rank in range(total + (other is not None)):
        spec = {
            "rank": rank,
            "seed": r.randrange(2**31),
            "env": {},
            "data": data,
            "model": model,
            "sync": sync,
            "log": log,
            "servers": servers,
            "server_idx": None,
            "client_rank": None,
            "num_ge": 0,
            "worker_hosts": None,
            "task_index": None,
            "delay": r.random() * top,
            "hold": r.random() * top,
            "create": r.random() < 0.3,
        }
        node, loc = divmod(rank, local)
        host = hosts[0] if rank == total else hosts[node] if not launcher.startswith("tf") else entries[rank].rsplit(":", 1)[0]
        if launcher == "index":
            spec["server_idx"], spec["client_rank"] = rank, rank
            if not explicit and nodes != min(count, 4) or r.random() < 0.3:
                spec["num_ge"] = nodes
        elif launcher == "ddp":
            spec["env"] = {"LOCAL_RANK": str(loc), "LOCAL_WORLD_SIZE": str(local), "WORLD_SIZE": str(total), "RANK": str(rank)}
        elif launcher == "mpi":
            spec["env"] = {"OMPI_COMM_WORLD_LOCAL_RANK": str(loc), "OMPI_COMM_WORLD_LOCAL_SIZE": str(local), "OMPI_COMM_WORLD_SIZE": str(total), "OMPI_COMM_WORLD_RANK": str(rank)}
        elif launcher == "horovod":
            spec["env"] = {"HOROVOD_LOCAL_RANK": str(loc), "HOROVOD_LOCAL_SIZE": str(local), "HOROVOD_SIZE": str(total), "HOROVOD_RANK": str(rank)}
        elif rank == total:
            ctx.count("other tasks")
            spec["env"] = {"TF_CONFIG": json.dumps({"cluster": {"worker": entries, other.lower(): [hosts[0] + ":4444"]}, "task": {"type": other, "index": 0}})}
        elif launcher == "tf_config":
            spec["env"] = {"TF_CONFIG": json.dumps({"cluster": {"worker": entries}, "task": {"type": r.choice(["worker", "worker", "Worker", "WORKER"]), "index": rank}})}
        else:
            spec["worker_hosts"], spec["task_index"] = entries, rank
        specs.append((spec, host))
    ctx.at({"op": "job " + launcher, "cfg": cfg})
    context = mp.get_context("fork")
    gate = context.Event()
    procs = []
    order = list(specs)
    r.shuffle(order)
    for spec, host in order:
        a, b = context.Pipe()
        q = context.Process(target=worker, args=(spec, b, host, gate))
        q.start()
        b.close()
        procs.append((spec, host, q, a))
    try:
        reports = []
        for spec, host, q, a in procs:
            reports.append(receive(ctx, cfg, a, q, spec))
        judge(ctx, cfg, reports, specs, log, nodes, hosts, explicit, servers, data)
        gate.set()
        for spec, host, q, a in procs:
            if receive(ctx, cfg, a, q, spec) != "closed":
                ctx.fail("backend not closed", "worker %d" % spec["rank"], cfg)
        for spec, host, q, a in procs:
            q.join(60)
            if q.exitcode != 0:
                ctx.fail("worker ended with another exit code", "worker %d: %s" % (spec["rank"], q.exitcode), cfg)
        left = []
        for top, _, files in os.walk(base):
            left += [os.path.join(top, f) for f in files if f.endswith((".server", ".client", ".servername"))]
        if left:
            ctx.fail("files left after closing", str([os.path.relpath(x, base) for x in left]), cfg)
    finally:
        gate.set()
        for spec, host, q, a in procs:
            if q.is_alive():
                q.kill()
            q.join()
            a.close()
        if os.path.exists(log):
            with open(log) as f:
                for line in f:
                    try:
                        os.kill(json.loads(line)["pid"], 9)
                    except OSError:
                        pass
        shutil.rmtree(base)
    ctx.count("jobs")
    ctx.count("workers", total)
    ctx.count("explicit" if explicit else "detected")
    if nodes > 1:
        ctx.count("multi_host")
    ctx.case(json.dumps([cfg, octets, entries]), True, dict(cfg, servers=reports[0]["servers"]))


def receive(ctx, cfg, a, q, spec):
    for i in range(1200):
        if a.poll(0.1):
            break
        if not q.is_alive():
            break
    else:
        raise RuntimeError("worker %d does not answer" % spec["rank"])
    try:
        got = a.recv()
    except EOFError:
        ctx.fail("worker died", "worker %d: exit code %s" % (spec["rank"], q.exitcode), cfg)
    if isinstance(got, dict) and "error" in got:
        ctx.fail("setup raised %s" % got["error"], "worker %d: %s" % (spec["rank"], got["text"]), cfg)
    return got


def judge(ctx, cfg, reports, specs, log, nodes, hosts, explicit, servers, data):
    lists = {tuple(x["servers"]) for x in reports}
    if len(lists) != 1:
        ctx.fail("workers use different lists of servers", str(sorted(lists)), cfg)
    used = list(lists.pop())
    if explicit and used != servers:
        ctx.fail("other servers than given", "%s instead of %s" % (used, servers), cfg)
    if len(used) != nodes or len(set(used)) != nodes:
        ctx.fail("wrong number of servers", "%s for %d hosts" % (used, nodes), cfg)
    for x in used:
        port = x.rsplit(":", 1)[-1]
        if not port.isdigit() or not 0 < int(port) < 65536:
            ctx.fail("server address without a usable port", str(used), cfg)
    for x in reports:
        if "modified" in x:
            ctx.fail("list of the caller modified", x["modified"], cfg)
        if not x["again"]:
            ctx.fail("another client on every use", "worker %d" % x["rank"], cfg)
    # Client registration with distinct ranks is enforced by the files of the folder; servers are logged.
    with open(log) as f:
        started = [json.loads(line) for line in f]
    place = dict((s["rank"], h) for s, h in specs)
    indices = [s["args"]["index"] for s in started]
    if sorted(indices) != list(range(nodes)):
        ctx.fail("server indices are not distinct and complete", "%s for %d servers" % (sorted(indices), nodes), cfg)
    for s in started:
        a = s["args"]
        if a["total_shards"] != nodes or a["data_path"] != data:
            ctx.fail("server started with other settings", str(a), cfg)
        if a["hostname"] != used[a["index"]]:
            ctx.fail("server listens on another address than clients use", "%s instead of %s" % (a["hostname"], used[a["index"]]), cfg)
        if not explicit and a["hostname"].rsplit(":", 1)[0] != place[s["rank"]]:
            ctx.fail("server listens on the address of another host", "%s on %s" % (a["hostname"], place[s["rank"]]), cfg)
    ctx.count("servers", len(started))
