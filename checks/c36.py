"""Graphs streamed from remote storage against the reference graph and the same files on disk."""
import ctypes
import os
import random
import re
import shutil
import subprocess
import tempfile
import threading

import gmodel
import native
import oracle

LEVEL = "exploration"
RULE = "one case is one query of a graph that was streamed from remote storage; it is nontrivial when there is something to return, and distinct by graph, location and arguments"
ASSUMPTIONS = [
    "libhdfs is replaced by a stand-in with the same interface that serves files of a scratch folder; it lists folders in any order and returns any positive number of bytes for a read, as the interface allows",
    "graphs have at most 900 nodes, so that files are a few buffers long",
    "missing or damaged remote files end the process by design and are not tried",
]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOME = os.path.join(HERE, ".build", "hdfs")
BUILDS = ["rel", "asan"]
NEED = {
    "streamed graphs": 40, "streamed servers": 20, "short reads": 2000, "long files": 10, "several partitions": 20, "temporal graphs": 8, "hdfs": 8, "adl": 4, "file": 4, "ports": 4,
    "loaded at once": 10, "odd folders": 8, "separate folders": 3, "samples compared": 60, "leftover settings": 4, "no features": 4, "descriptions": 20, "refused": 6, "bytes": 100000,
}
PARALLEL = 6


def prepare():
    out = os.path.join(HOME, "lib", "native")
    os.makedirs(out, exist_ok=True)
    src = os.path.join(HERE, "shim", "hdfs", "hdfs.c")
    tmp = os.path.join(out, "tmp%d.so" % os.getpid())
    subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-pthread", "-w", "-o", tmp, src], check=True)
    os.rename(tmp, os.path.join(out, "libhdfs.so"))


def plan(tier, seed):
    big = tier == "thorough"
    env = {"HADOOP_HOME": HOME}
    return [{"name": "s%d" % i, "config": "asan" if i % 3 == 2 else "rel", "graphs": (800 if big else 40) if i % 3 != 2 else (300 if big else 16), "rounds": 16, "env": env, "timeout": 800} for i in range(6)]


NAMES = ("connects", "open", "opened", "infos", "reads", "short", "misuse", "bytes")


class Store:
    """The stand-in for libhdfs of this process."""

    def __init__(self, root):
        self.root = root
        self.lib = ctypes.CDLL(os.path.join(HOME, "lib", "native", "libhdfs.so"))
        self.lib.vh_count.restype = ctypes.c_int64
        self.lib.vh_setup.argtypes = [ctypes.c_char_p, ctypes.c_uint64, ctypes.c_int, ctypes.c_int]

    def setup(self, seed, shorts, delay=0):
        self.lib.vh_setup(self.root.encode(), seed, shorts, delay)

    def counts(self):
        return {n: self.lib.vh_count(i) for i, n in enumerate(NAMES)}

    def connected(self):
        buf = ctypes.create_string_buffer(1 << 17)
        self.lib.vh_connected(buf, ctypes.c_size_t(len(buf)))
        return [tuple(l.rsplit("|", 1)) for l in buf.value.decode().split("\n") if l]


def make(r):
    temporal = r.random() < 0.3
    n = r.choice([1, 3, 12, 50, 300, 900])
    g = gmodel.random_graph(
        r, nodes=n, ntypes=r.randint(1, 3), etypes=r.randint(1, 3), degree=r.choice([1, 3]) if n > 100 else r.choice([1, 3, 10]),
        temporal=temporal, weights=r.choice(["exact", "exact0"]), node_weights=r.choice([None, "exact"]), features=r.choice([0, 0.4, 0.8]),
        kinds=("dense",) if temporal else ("dense", "string", "sparse"),
    )
    return oracle.prepare(r, g)


def place(ctx, r, root, k):
    """A remote location: what users write, and the folder in which the stand-in looks."""
    kind = ("hdfs", "adl", "file")[k % 3] if r.random() < 0.7 else r.choice(["hdfs", "hdfs", "adl", "file"])
    tail = r.choice(["graph", "data/v1", "my_neighbors_v2", "neighbors_0_0/copy", "node_1.map", "a b", "neighbors_7_0.index"]) + "_%d_%d" % (k, r.randrange(10**6))
    ctx.count("odd folders", "neighbors" in tail or " " in tail or "map" in tail)
    if kind == "file":
        folder = os.path.join(root, "file", tail)
        url, host, port = "file://" + folder, None, None
    else:
        port = r.choice([0, 8020, 65535]) if kind == "hdfs" else 0
        name = r.choice(["store", "name-1.example.net"]) if kind == "hdfs" else "acct.azuredatalakestore.net"
        base = "%s://%s" % (kind, name)
        url = base + (":%d" % port if port else "") + "/" + tail
        folder = os.path.join(root, kind, url.split("://")[1])
        host = base if port else None
        ctx.count("ports", port > 0)
    ctx.count(kind)
    if r.random() < 0.25:
        url += "/"
    return url, folder, (host, port)


def files(folder):
    return [os.path.join(folder, f) for f in os.listdir(folder)]


def partition_of(name):
    """Partition to which a file belongs, type_partition.alias or partition_number.*"""
    found = re.search(r"_(\d+)_(\d+)\.(\w+)$", name)
    return found and int(found.group(2 if found.group(3) == "alias" else 1))


def run(job, ctx):
    from deepgnn.graph_engine.snark import client
    from deepgnn.graph_engine.snark.server import Server

    root = os.path.join(ctx.scratch, "remote")
    spare = os.path.join(ctx.scratch, "tmp")
    os.makedirs(root)
    os.makedirs(spare)
    # Anything put into the folder for temporary files stays in the scratch folder.
    os.environ["TMPDIR"] = spare
    tempfile.tempdir = spare
    store = Store(root)
    r = ctx.rng(job["name"])
    waiting = []
    for k in range(job["graphs"]):
        g = make(r)
        case = {"graph": g.summary(), "k": k}
        local = os.path.join(ctx.scratch, "g%d" % k)
        parts = min(len(g.nodes), r.choice([1, 1, 2, 4]))
        ctx.at({"op": "convert", "case": case})
        gmodel.convert(g, local, parts, gmodel.even_assign(g, parts))
        url, folder, connect = place(ctx, r, root, k)
        os.makedirs(os.path.dirname(folder), exist_ok=True)
        shutil.copytree(local, folder)
        if r.random() < 0.3:
            open(os.path.join(folder, r.choice(["_SUCCESS", "notes.txt", "x"])), "w").close()
        where = [(url, p) for p in range(parts)]
        if parts > 1 and r.random() < 0.4:
            # Partitions in several places, one of them may be on disk.
            for p in range(parts):
                if r.random() < 0.5:
                    u, f, _ = place(ctx, r, root, k)
                    os.makedirs(f)
                    for name in files(folder):
                        if partition_of(name) == p:
                            shutil.move(name, f)
                    where[p] = (u, p) if r.random() < 0.7 else (f, p)
            ctx.count("separate folders")
        ctx.count("several partitions", parts > 1)
        ctx.count("temporal graphs", g.temporal)
        ctx.count("long files", any(os.path.getsize(f) > 3 * 4096 for f in files(local)))
        config = ""
        if r.random() < 0.4:
            # A file of another job with the same name must not matter.
            with open(os.path.join(spare, "meta.json"), "w") as f:
                f.write(r.choice(["", "{}", '{"binary_data_version": "v9"}']))
            ctx.count("leftover settings")
        if r.random() < 0.4:
            config = os.path.join(ctx.scratch, "conf")
            os.makedirs(config, exist_ok=True)
            if r.random() < 0.5:
                config = os.path.join(config, "core-site.xml")
                open(config, "w").close()
        if where == [(url, p) for p in range(parts)] and r.random() < 0.5:
            where = list(range(parts))
        os.environ.pop("CLASSPATH", None)
        case.update(url=url, where=[w if isinstance(w, int) else (w[0].replace(ctx.scratch, ""), w[1]) for w in where], config=bool(config))
        if k % 10 == 0:
            refuse(ctx, r, store, url, where, config, client, Server)
        entry = (g, case, local, url, where, config, parts, connect, r.randrange(2**40))
        waiting.append(entry)
        if len(waiting) == 2 or k == job["graphs"] - 1:
            at_once(ctx, r, store, waiting, job, client, Server, spare)
            waiting = []


def refuse(ctx, r, store, url, where, config, client, Server):
    """Streaming to disk is not offered and has to be refused."""
    store.setup(r.randrange(2**62), 0)
    disk = client.PartitionStorageType.disk
    for make_it in (lambda: client.MemoryGraph(url, where, disk, config, stream=True), lambda: Server(url, where, native.address(), storage_type=disk, config_path=config, stream=True)):
        try:
            made = make_it()
        except ValueError:
            ctx.count("refused")
        else:
            made.reset()
            ctx.violation("streaming to disk is accepted", str(type(made)), {})


def content(folder):
    found = {}
    for f in os.listdir(folder):
        with open(os.path.join(folder, f), "rb") as h:
            found[f] = h.read()
    return found


def at_once(ctx, r, store, entries, job, client, Server, spare):
    """Load graphs at the same time, then ask each of them."""
    from deepgnn.graph_engine.snark.meta import Meta

    shorts = r.choice([0, 30, 90])
    store.setup(r.randrange(2**62), shorts, r.choice([0, 0, 300]))
    before = content(spare)
    forms, got = [r.choice(["memory", "memory", "server"]) for _ in entries], [None] * len(entries)
    keep = []
    ctx.at({"op": "load", "case": [e[1] for e in entries], "forms": forms, "shorts": shorts})

    def load(i):
        g, case, local, url, where, config, parts, connect, seed = entries[i]
        if forms[i] == "memory":
            got[i] = ctx.call("stream a graph", client.MemoryGraph, url, where, config_path=config, stream=True, case=case)
        else:
            addr = addresses[i]
            s = ctx.call("stream a graph", Server, url, where, addr, config_path=config, stream=True, skip_feature_loading=skip[i], case=case)
            keep.append(s)
            got[i] = ctx.call("connect", client.DistributedGraph, [addr], case=case)

    addresses = [native.address() for _ in entries]
    skip = [f == "server" and r.random() < 0.3 for f in forms]
    together = len(entries) > 1 and r.random() < 0.7
    if together:
        errors = []

        def guarded(i):
            try:
                load(i)
            except BaseException as e:
                errors.append(e)

        threads = [threading.Thread(target=guarded, args=(i,)) for i in range(len(entries))]
        [t.start() for t in threads]
        [t.join() for t in threads]
        ctx.count("loaded at once")
        if errors:
            raise errors[0]
    else:
        for i in range(len(entries)):
            load(i)
    seen = store.counts()
    ctx.count("short reads", seen["short"])
    ctx.count("bytes", seen["bytes"])
    for i, (g, case, local, url, where, config, parts, connect, seed) in enumerate(entries):
        if connect[0] is not None:
            hosts = store.connected()
            if not any(h.startswith(connect[0]) and int(p) == connect[1] for h, p in hosts):
                ctx.violation("connected to another host", "%s is not %s" % (hosts[:4], connect), case)
        model = g
        if skip[i]:
            import copy

            model = copy.deepcopy(g)
            for it in list(model.nodes.values()) + model.edges:
                it.feats = {}
            ctx.count("no features")
        q = random.Random(seed)
        label = "%s %s" % (forms[i], url)
        p = oracle.Probe(ctx, model, got[i], q, label, case=case)
        for n in range(job["rounds"]):
            with ctx.trial():
                p.any(0 if n == 5 else None)
        with ctx.trial():
            p.node_types(len(g.nodes))
        ctx.count("streamed servers" if forms[i] == "server" else "streamed graphs")
        with ctx.trial():
            if forms[i] == "memory":
                compare_samples(ctx, q, g, got[i], client.MemoryGraph(local, list(range(parts))), client, case)
            else:
                addr = native.address()
                s2 = Server(local, list(range(parts)), addr)
                twin = client.DistributedGraph([addr])
                compare_samples(ctx, q, g, got[i], twin, client, case)
                twin.reset()
                s2.reset()
            if forms[i] == "memory":
                same = [{k: v for k, v in vars(m).items() if isinstance(v, (int, float, list))} for m in (got[i].meta, Meta(local))]
                if same[0] != same[1]:
                    ctx.fail("description of a streamed graph differs", "%s instead of %s" % (same[0], same[1]), case)
                ctx.count("descriptions")
        got[i].reset()
    for s in keep:
        s.reset()
    left = store.counts()
    for n, what in (("open", "remote files stay open"), ("infos", "descriptions of remote files are not freed"), ("misuse", "a closed remote file was used")):
        if left[n]:
            ctx.violation(what, "%d after all graphs are gone" % left[n], {"case": [e[1]["k"] for e in entries]})
    after = content(spare)
    if after != before:
        # Jobs on one machine share this folder.
        ctx.violation("the folder for temporary files changed", "%s instead of %s" % (sorted(after.items())[:4], sorted(before.items())[:4]), {"case": [e[1]["k"] for e in entries]})


def compare_samples(ctx, q, g, a, b, client, case):
    """The same files give the same samples for the same seed."""
    import numpy as np

    nt, et = sorted(g.node_types()), sorted(g.edge_types())
    for kind, types in ((client.NodeSampler, nt), (client.EdgeSampler, et)):
        if not types:
            continue
        chosen = q.sample(types, q.randint(1, len(types)))
        items = [n for n in g.nodes.values() if n.type in chosen] if kind is client.NodeSampler else [e for e in g.edges if e.type in chosen]
        for how in ("weighted", "withoutreplacement"):
            samplers = [ctx.call("create a sampler", kind, x, np.array(chosen), how, case=case) for x in (a, b)]
            seed = q.randrange(2**31)
            outs = [ctx.call("sample", s.sample, 8 if how == "weighted" else len(items), seed, case=case) for s in samplers]
            rows = [list(zip(*[np.asarray(v).tolist() for v in o])) for o in outs]
            if how != "weighted":
                # Everything is returned in an order that is not specified.
                rows = [sorted(x) for x in rows]
            if rows[0] != rows[1]:
                ctx.fail("samples of a streamed graph differ", "%s %s of types %s: %s instead of %s" % (kind.__name__, how, chosen, rows[0][:6], rows[1][:6]), case)
            ctx.count("samples compared")
