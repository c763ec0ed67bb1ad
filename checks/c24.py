"""Servers and clients started, used, stopped and restarted in many orders, also with calls in flight."""
import ctypes
import gc
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time

import numpy as np

import gmodel
import native
import oracle

LEVEL = "exploration"
RULE = "one case is one step of a history or one call made while servers stop and start; it is nontrivial when something was started, released or asked, and distinct by history and step"
ASSUMPTIONS = [
    "the transport is an in-process replacement of the real one: calls in flight are finished before a server has stopped, calls to a stopped server fail at once",
    "a client is not released by one thread while another one is using it",
    "a client that was connected to a stopped server may keep failing or go on with a new server on the same address",
]
BUILDS = ["rel", "asan", "tsan"]
NEED = {
    "steps": 500, "right answers": 300, "refused": 50, "restarts": 30, "next client": 60, "used after release": 20, "stopped with calls in flight": 20, "answers in flight": 200, "failures in flight": 20,
    "cycles": 100, "process ends": 3, "old samplers": 20, "released twice": 10, "failed connects": 5,
}


def plan(tier, seed):
    big = tier == "thorough"
    jobs = [{"name": "history-%s%d" % (c, i), "kind": "history", "config": c, "graphs": n * (6 if big else 1), "steps": 60} for c, n, k in (("rel", 20, 3), ("asan", 8, 2)) for i in range(k)]
    jobs += [{"name": "flight-%s%d" % (c, i), "kind": "flight", "config": c, "graphs": n * (6 if big else 1), "stops": 10} for c, n, k in (("rel", 20, 1), ("asan", 8, 1), ("tsan", 6, 1)) for i in range(k)]
    jobs += [{"name": "leak%d" % i, "kind": "leak", "config": "rel", "cycles": 300 if big else 90} for i in range(2)]
    jobs += [{"name": "end%d" % i, "kind": "end", "config": c, "runs": 12 if big else 4} for i, c in enumerate(["rel", "asan"])]
    return jobs


POLICY = json.dumps({"methodConfig": [{"name": [{}], "retryPolicy": {"maxAttempts": 1, "initialBackoff": "0.1s", "maxBackoff": "0.1s", "backoffMultiplier": 1, "retryableStatusCodes": ["UNAVAILABLE"]}}]})


class Failed(BaseException):
    pass


class Tried:
    """A graph whose failed calls can be told from wrong answers."""

    def __init__(self, graph):
        self._g = graph

    def __getattr__(self, name):
        fn = getattr(self._g, name)
        if not callable(fn):
            return fn

        def call(*a, **kw):
            try:
                return fn(*a, **kw)
            except Exception as e:
                raise Failed(repr(e))

        return call


class World:
    """Servers at fixed addresses, one per group of partitions, each up or down."""

    def __init__(self, ctx, r, index, temporal=None):
        self.ctx, self.r = ctx, r
        temporal = r.random() < 0.3 if temporal is None else temporal
        self.g = gmodel.random_graph(
            r, nodes=r.choice([10, 30]), ntypes=2, etypes=3, degree=4, weights="exact", node_weights="exact", temporal=temporal, features=0.8, kinds=("dense",) if temporal else ("dense", "string", "sparse"))
        oracle.prepare(r, self.g)
        self.parts = r.choice([1, 2, 3])
        self.out = os.path.join(ctx.scratch, "w%d" % index)
        spread = self.parts > 1 and r.random() < 0.5
        gmodel.convert(self.g, self.out, self.parts, gmodel.even_assign(self.g, self.parts), (lambda s, k, p=self.parts: (s + k) % p) if spread else None)
        self.addresses = [native.address() for _ in range(self.parts)]
        self.servers = [None] * self.parts
        self.born = [0] * self.parts

    def start(self, i):
        from deepgnn.graph_engine.snark import client, distributed, server

        if self.r.random() < 0.3:
            self.servers[i] = self.ctx.call("start server", distributed.Server, self.addresses[i], self.out, i, self.parts, storage_type=self.r.choice(list(client.PartitionStorageType)), case={"address": i})
        else:
            self.servers[i] = self.ctx.call("start server", server.Server, self.out, [i], self.addresses[i], case={"address": i})
        self.born[i] += 1
        self.ctx.count("restarts", int(self.born[i] > 1))

    def stop(self, i):
        s, self.servers[i] = self.servers[i], None
        self.ctx.call("stop server", s.reset, case={"address": i})
        if self.r.random() < 0.2:
            self.ctx.call("stop server twice", s.reset, case={"address": i})
            self.ctx.count("released twice")

    def up(self):
        return all(s is not None for s in self.servers)

    def client(self):
        from deepgnn.graph_engine.snark import client

        kw = self.r.choice([{}, {"num_threads": 1}, {"num_threads": 3, "num_cq_per_thread": 2}])
        return client.DistributedGraph(self.addresses, grpc_options=[("grpc.service_config", POLICY)], **kw)

    def close(self):
        for i, s in enumerate(self.servers):
            if s is not None:
                self.stop(i)
        shutil.rmtree(self.out)


def run(job, ctx):
    {"history": history, "flight": flight, "leak": leak, "end": end}[job["kind"]](job, ctx)


class Client:
    def __init__(self, w, graph):
        self.graph, self.samplers, self.born, self.open = graph, [], list(w.born), True


def history(job, ctx):
    r = ctx.rng(job["name"])
    for gi in range(job["graphs"]):
        w = World(ctx, r, gi)
        clients = []
        log = []
        with ctx.trial():
            for i in range(job["steps"]):
                ctx.at({"op": "history", "steps": log[-12:]})
                log.append(step(ctx, r, w, clients))
                ctx.count("steps")
                ctx.case((job["name"], gi, i), log[-1] != "nothing", {"steps": log[-4:]} if i == 20 else None)
            # Everything is released in a random order.
            rest = [("client", c) for c in clients] + [("server", i) for i, s in enumerate(w.servers) if s is not None]
            r.shuffle(rest)
            for what, x in rest:
                ctx.at({"op": "release", "what": what})
                release(ctx, r, x) if what == "client" else w.stop(x)
        w.close()
        clients.clear()
        native.clear()


def step(ctx, r, w, clients):
    what = r.random()
    down = [i for i, s in enumerate(w.servers) if s is None]
    alive = [i for i, s in enumerate(w.servers) if s is not None]
    if what < 0.25 and down:
        for i in down if r.random() < 0.7 else [r.choice(down)]:
            w.start(i)
        if w.up():
            check_next(ctx, r, w, clients)
        return "start"
    if what < 0.35 and alive:
        i = r.choice(alive)
        w.stop(i)
        if r.random() < 0.4:
            w.start(i)
            return "restart"
        return "stop"
    if what < 0.45:
        if w.up():
            check_next(ctx, r, w, clients)
            return "connect"
        if r.random() < 0.5:
            try:
                graph = w.client()
            except Exception:
                ctx.count("failed connects")
                return "refused"
            graph.reset()
            return "connect without all servers"
    if what < 0.6 and clients:
        c = clients.pop(r.randrange(len(clients)))
        release(ctx, r, c)
        return "release"
    if clients:
        c = r.choice(clients)
        ask(ctx, r, w, c)
        return "ask"
    return "nothing"


def check_next(ctx, r, w, clients):
    """All servers are up: a new client has to get the right answers."""
    graph = ctx.call("connect", w.client, case={"servers": w.parts})
    c = Client(w, graph)
    clients.append(c)
    p = oracle.Probe(ctx, w.g, graph, r, "new client")
    for _ in range(2):
        p.any()
    sampler(ctx, r, w, c, True)
    ctx.count("next client")
    ctx.count("right answers", 2)


def sampler(ctx, r, w, c, sure):
    from deepgnn.graph_engine.snark import client

    kind = r.choice(["weighted", "uniform"])
    if r.random() < 0.5:
        types = [r.choice(sorted({n.type for n in w.g.nodes.values()}))]
        make = lambda: (client.NodeSampler(c.graph, types, kind), "nodes", types)
    else:
        have = sorted({e.type for e in w.g.edges})
        if not have:
            return
        types = [r.choice(have)]
        make = lambda: (client.EdgeSampler(c.graph, types, kind), "edges", types)
    try:
        s = make()
    except Exception as e:
        if sure:
            ctx.fail("create sampler: raised %s" % type(e).__name__, repr(e))
        ctx.count("refused")
        return
    c.samplers.append(s)
    sample(ctx, r, w, s, sure)


def sample(ctx, r, w, s, sure):
    what, types = s[1:]
    ctx.at({"op": "sample", "what": what, "types": types})
    try:
        got = s[0].sample(r.choice([1, 5]), r.getrandbits(40))
    except Exception as e:
        if sure:
            ctx.fail("sample: raised %s" % type(e).__name__, repr(e))
        ctx.count("refused")
        return
    ctx.count("right answers")
    got = list(zip(*(x.tolist() for x in got)))
    bad = [x for x in got if (x[1] not in types or x[0] not in w.g.nodes if what == "nodes" else x[2] not in types or not w.g.find(*x))]
    if bad:
        ctx.fail("sample: wrong element", "%s" % bad[:3], {"types": types, "servers": "as before" if sure else "restarted"})


def ask(ctx, r, w, c):
    same = w.up() and c.born == w.born
    if c.samplers and r.random() < 0.4:
        ctx.count("old samplers", int(not same))
        return sample(ctx, r, w, r.choice(c.samplers), same)
    if r.random() < 0.2:
        return sampler(ctx, r, w, c, same)
    if same:
        oracle.Probe(ctx, w.g, c.graph, r, "connected client").any()
        ctx.count("right answers")
        return
    try:
        oracle.Probe(ctx, w.g, Tried(c.graph), r, "client of a server that was stopped").any()
        ctx.count("right answers")
    except Failed:
        ctx.count("refused")


def release(ctx, r, c):
    order = ["graph", "samplers"]
    r.shuffle(order)
    for x in order:
        if x == "graph":
            ctx.call("release client", c.graph.reset)
            if r.random() < 0.3:
                ctx.call("release client twice", c.graph.reset)
                ctx.count("released twice")
            if r.random() < 0.5:
                # Nothing to ask any more, but nothing may break.
                ctx.at({"op": "ask a released client"})
                try:
                    res = c.graph.node_types(np.array([1, 2], dtype=np.int64), -1)
                    ctx.fail("a released client answers", "%s" % res.tolist())
                except Exception:
                    ctx.count("used after release")
        else:
            r.shuffle(c.samplers)
            for s in c.samplers:
                if r.random() < 0.3:
                    ctx.at({"op": "sample of a released client"})
                    try:
                        s[0].sample(3, 1)
                    except Exception:
                        pass
                ctx.call("release sampler", s[0].reset)
                if r.random() < 0.3:
                    try:
                        res = s[0].sample(2, 1)
                        ctx.fail("a released sampler answers", "%s" % [x.tolist() for x in res])
                    except Exception:
                        ctx.count("used after release")
    c.graph = None
    c.samplers = []
    if r.random() < 0.3:
        gc.collect()


def flight(job, ctx):
    """Threads with clients of their own ask all the time while servers stop and start."""
    sys.setswitchinterval(1e-4)
    r = ctx.rng(job["name"])
    for gi in range(job["graphs"]):
        w = World(ctx, r, gi)
        for i in range(w.parts):
            w.start(i)
        native.random_delay(r.choice([0, 500, 3000]), r.randint(1, 2**40))
        native.take_delay(r.choice([0, 200]))
        stop = threading.Event()
        errors = []
        seeds = [r.getrandbits(60) for _ in range(3)]

        def asking(k):
            mine = random.Random(seeds[k])
            try:
                while not stop.is_set():
                    try:
                        graph = w.client()
                    except Exception:
                        ctx.count("failed connects")
                        continue
                    for i in range(mine.randint(1, 12)):
                        if stop.is_set():
                            break
                        try:
                            with ctx.trial():
                                oracle.Probe(ctx, w.g, Tried(graph), mine, "thread %d" % k).any()
                            ctx.count("answers in flight")
                        except Failed:
                            ctx.count("failures in flight")
                    if mine.random() < 0.5:
                        graph.reset()
                    del graph
            except BaseException as e:
                errors.append(e)

        threads = [threading.Thread(target=asking, args=(k,), daemon=True) for k in range(3)]
        for t in threads:
            t.start()
        for k in range(job["stops"]):
            for _ in range(200):
                if native.ctl().vf_in_flight() > 0:
                    break
                time.sleep(0.001)
            time.sleep(r.random() * 0.01)
            i = r.randrange(w.parts)
            ctx.count("stopped with calls in flight", int(native.ctl().vf_in_flight() > 0))
            w.stop(i)
            time.sleep(r.random() * 0.005)
            w.start(i)
            ctx.case((job["name"], gi, k), True)
        stop.set()
        for t in threads:
            t.join()
        if errors:
            raise errors[0]
        native.clear()
        with ctx.trial():
            found = []
            check_next(ctx, r, w, found)
            release(ctx, r, found[0])
        w.close()


class Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


def in_use():
    """Bytes of native memory, threads and files that are in use."""
    gc.collect()
    fn = ctypes.CDLL(None).mallinfo2
    fn.restype = Info
    info = fn()
    return info.uordblks + info.hblkhd, len(os.listdir("/proc/self/task")), len(os.listdir("/proc/self/fd"))


def leak(job, ctx):
    """Many rounds of everything: what is used afterwards must not grow with the number of rounds."""
    from deepgnn.graph_engine.snark import client

    r = ctx.rng(job["name"])
    w = World(ctx, r, 0, False)
    seed = r.getrandbits(40)

    def cycle(k):
        q = random.Random(seed)
        w.r = q
        for i in range(w.parts):
            w.start(i)
        found = []
        check_next(ctx, q, w, found)
        check_next(ctx, q, w, found)
        w.stop(0)
        try:
            w.client().reset()
            ctx.violation("a client connects without its server", "", {"round": k})
        except Exception:
            ctx.count("refused clients")
        local = native.memory_graph(w.out, list(range(w.parts)))
        picked = client.NodeSampler(local, sorted({n.type for n in w.g.nodes.values()}), q.choice(["weighted", "uniform", "withoutreplacement"]))
        picked.sample(2)
        picked.reset()
        local.reset()
        ask(ctx, q, w, found[0])
        ask(ctx, q, w, found[0])
        release(ctx, q, found[0])
        w.start(0)
        check_next(ctx, q, w, found)
        for c in found[1:]:
            release(ctx, q, c)
        for i in range(w.parts):
            w.stop(i)
        native.reset_counters()
        ctx.count("cycles")
        ctx.case((job["name"], k), True)

    for k in range(10):
        cycle(-k)
    marks = [in_use()]
    for part in range(3):
        for k in range(job["cycles"] // 3):
            cycle(part * 1000 + k)
        marks.append(in_use())
    n = job["cycles"] // 3
    grown = [(b[0] - a[0]) / n for a, b in zip(marks, marks[1:])]
    ctx.stat("bytes per round", grown)
    if min(grown) > 4000:
        ctx.violation("memory is not released", "%s bytes more in use after every round" % [int(x) for x in grown], {"rounds": job["cycles"]})
    for j, name in ((1, "threads"), (2, "files")):
        seen = [m[j] for m in marks]
        if all(b - a >= n / 2 for a, b in zip(seen, seen[1:])):
            ctx.violation("%s are not released" % name, "%s in use after %d rounds each" % (seen, n), {"rounds": job["cycles"]})
    w.close()


SCRIPT = """
import sys, os
sys.path.insert(0, %(lib)r)
import numpy as np
from deepgnn.graph_engine.snark import client, server
order = %(order)r
servers = [server.Server(%(path)r, [i], a) for i, a in enumerate(%(addresses)r)]
graph = client.DistributedGraph(%(addresses)r)
local = client.MemoryGraph(%(path)r, list(range(len(servers))))
sampler = client.NodeSampler(graph, %(types)r)
other = client.NodeSampler(local, %(types)r)
print(len(graph.node_types(np.array(%(nodes)r), -1)), len(sampler.sample(3)[0]), len(other.sample(3)[0]), flush=True)
for x in order:
    if x == "servers":
        for s in servers:
            s.reset()
    elif x == "drop":
        del graph, sampler
        graph = sampler = None
    elif x == "thread":
        import threading
        def forever():
            while True:
                try:
                    local.node_types(np.array(%(nodes)r), -1)
                    if graph is not None:
                        graph.node_types(np.array(%(nodes)r), -1)
                except Exception:
                    pass
        threading.Thread(target=forever, daemon=True).start()
    elif x == "global":
        sys.keep = (graph, sampler, servers, other, local)
print("done", flush=True)
"""


def end(job, ctx):
    """Processes that end without releasing everything."""
    r = ctx.rng(job["name"])
    w = World(ctx, r, 0, False)
    nodes = list(w.g.nodes)[:5]
    types = sorted({n.type for n in w.g.nodes.values()})
    orders = [[], ["servers"], ["drop"], ["global"], ["servers", "drop"], ["servers", "global"], ["drop", "servers"]]
    for k in range(job["runs"]):
        order = orders[k % len(orders)] if k >= 2 else orders[r.randrange(len(orders))]
        text = SCRIPT % {"lib": os.path.dirname(os.path.abspath(native.__file__)), "order": order, "path": w.out, "addresses": w.addresses, "types": types, "nodes": nodes}
        ctx.at({"op": "end of a process", "order": order})
        p = subprocess.Popen([sys.executable, "-B", "-c", text], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=ctx.scratch)
        out, err, hung = wait(p)
        if hung == "busy":
            raise RuntimeError("process is still busy")
        text = err.decode(errors="replace")
        if hung or p.returncode != 0 or b"done" not in out:
            what = "does not end" if hung else "ends with %s" % p.returncode
            ctx.violation("a process with unreleased objects %s" % what, "%s\n%s" % (out.decode(errors="replace")[-300:], text[-1500:]), {"released": order})
        elif out.split()[:3] != [b"%d" % len(nodes), b"3", b"3"]:
            ctx.violation("wrong answers before the end", out.decode(errors="replace"), {"released": order})
        ctx.count("process ends")
        ctx.case((job["name"], k, str(order)), True, {"released": order})
    w.close()


def wait(p, limit=240):
    """Output of the process; a process is hung when it does nothing for a long time."""
    res = {}

    def read(name):
        res[name] = getattr(p, name).read()

    readers = [threading.Thread(target=read, args=(n,), daemon=True) for n in ("stdout", "stderr")]
    for t in readers:
        t.start()
    began, ticks, since = time.time(), None, time.time()
    hung = None
    while p.poll() is None:
        time.sleep(0.05)
        try:
            now = open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()[11:13]
        except OSError:
            continue
        if now != ticks:
            ticks, since = now, time.time()
        if time.time() - since > 30:
            hung = "idle"
        elif time.time() - began > limit:
            hung = "busy"
        if hung:
            p.kill()
            p.wait()
            break
    for t in readers:
        t.join(5)
    return res.get("stdout", b""), res.get("stderr", b""), hung
