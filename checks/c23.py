"""Graphs loaded through remote file systems answer like local copies and leave nothing behind."""
import gc
import hashlib
import os
import random
import shutil
import tempfile

import gmodel
import native
import oracle
import remotefs

LEVEL = "exploration"
RULE = "one case is one load of a graph through one combination of locations; it is nontrivial when at least one file was transferred or a local folder was used in place, and distinct by graph and locations"
ASSUMPTIONS = [
    "remote file systems are stand-ins under other protocol names that list, open and transfer files of a folder; a store that needs a network is not used",
    "partition numbers are unique among the listed partitions",
]
BUILDS = ["rel"]
NEED = {"loads": 150, "transfers": 1500, "temporal": 30, "several systems": 20, "local description": 10, "in place": 20, "failed transfers": 20, "servers": 20, "disk": 20, "subset": 15, "samplers": 50, "first moment": 1, "no samplers": 20}


def plan(tier, seed):
    big = tier == "thorough"
    return [{"name": "g%d" % i, "config": "rel", "graphs": 120 if big else 15, "rounds": 16 if big else 10, "timeout": 800} for i in range(6)]


def make(r):
    temporal = r.random() < 0.4
    g = gmodel.random_graph(
        r,
        nodes=r.choice([1, 3, 12, 30]),
        ntypes=r.randint(1, 3),
        etypes=r.randint(1, 3),
        degree=r.choice([0, 1, 3, 6]),
        temporal=temporal,
        weights="exact",
        features=r.choice([0, 0.4, 0.8]),
        kinds=("dense",) if temporal else ("dense", "string", "sparse"),
    )
    if r.random() < 0.25:
        for n in g.nodes.values():
            n.feats = {}
    if r.random() < 0.25:
        for e in g.edges:
            e.feats = {}
    return oracle.prepare(r, g)


def content(folder):
    res = {}
    for top, _, files in os.walk(folder):
        for f in files:
            path = os.path.join(top, f)
            with open(path, "rb") as s:
                res[os.path.relpath(path, folder)] = hashlib.sha256(s.read()).hexdigest()
    return res


def run(job, ctx):
    r = ctx.rng(job["name"])
    temp = os.path.join(ctx.scratch, "temp")
    for gi in range(job["graphs"]):
        base = os.path.join(ctx.scratch, "g%d" % gi)
        try:
            one(ctx, r, job, gi, base, temp)
        finally:
            tempfile.tempdir = None
            shutil.rmtree(base, ignore_errors=True)
            shutil.rmtree(temp, ignore_errors=True)


def one(ctx, r, job, gi, base, temp):
    g = make(r)
    ctx.count("first moment", int(g.watermark == 0))
    parts = min(len(g.nodes), r.choice([1, 2, 3, 5]))
    if parts > 2 and r.random() < 0.3 and len(g.nodes) >= 12:
        parts = 12  # Two digits in names of files.
    out = os.path.join(base, "out")
    os.makedirs(base)
    ctx.at({"op": "convert", "graph": g.summary(), "parts": parts})
    skip_nodes, skip_edges = r.random() < 0.3, r.random() < 0.3
    where = gmodel.even_assign(g, parts)
    gmodel.convert(g, out, parts, where, skip_node_sampler=skip_nodes, skip_edge_sampler=skip_edges)
    control = remotefs.register(vremote=os.path.join(base, "one"), vother=os.path.join(base, "two"))
    one_, two, here = (os.path.join(base, x) for x in ("one", "two", "here"))
    for d in (one_, two, here):
        os.makedirs(d)
    # Whole copies next to folders with single partitions.
    for d in (one_, two, here):
        shutil.copytree(out, os.path.join(d, "data"))
        gmodel.scatter(out, os.path.join(d, "split"), parts)
    prefix = {"vremote": "vremote:///", "vother": "vother:///", "local": here + "/"}
    qseed = r.randint(0, 2**40)
    whole = list(range(parts))
    want = None
    for form in ["local", "remote", "split", "mixed", "described locally", "subset", "failing"]:
        if form in ("split", "mixed", "subset") and parts == 1:
            continue
        case = {"graph": g.summary(), "parts": parts, "form": form}
        wanted = whole
        if form == "local":
            meta, locations = prefix["local"] + "data", [prefix["local"] + "data"] * parts
        elif form in ("remote", "failing"):
            meta, locations = prefix["vremote"] + "data", [prefix["vremote"] + "data"] * parts
        elif form == "split":
            meta, locations = prefix["vremote"] + "split", [prefix["vremote"] + "split/part%d" % p for p in whole]
        elif form in ("mixed", "described locally"):
            kinds = [r.choice(["vremote", "vother", "local"]) for p in whole]
            if form == "described locally":
                kinds[r.randrange(parts)] = "vother"
            meta = prefix[r.choice(["vremote", "vother"]) if form == "mixed" else "local"] + "split"
            locations = [prefix[k] + "split/part%d" % p for k, p in zip(kinds, whole)]
            if len(set(kinds)) > 1:
                ctx.count("several systems")
        else:
            wanted = sorted(r.sample(whole, r.randint(1, parts - 1)))
            meta, locations = prefix["vother"] + "data", [prefix["vother"] + "data"] * parts
        remote = any(x.startswith("v") for x in [meta] + [locations[p] for p in wanted])
        given = [(locations[p], p) for p in wanted]
        if len(set(locations)) == 1 and locations[0] == meta and r.random() < 0.5:
            given = list(wanted)
        model = g if form != "subset" else g.subset([n for n in g.nodes if where(n) in wanted])
        before = {d: content(d) for d in (one_, two, here)}
        shutil.rmtree(temp, ignore_errors=True)
        os.makedirs(temp)
        tempfile.tempdir = temp
        storage = r.choice(["memory", "disk"])
        remote_server = form != "failing" and r.random() < 0.3
        case.update(meta=meta.split("/")[0], storage=storage, server=remote_server)
        ctx.at({"op": "load " + form, "cfg": case})
        control.reset(random.Random(qseed), r.choice([0, 0, 0.002]))
        if form == "failing":
            total = r.randint(1, 9)
            control.fail = lambda n: OSError("injected") if n == total else None
        with ctx.trial():
            log = load(ctx, job, g, model, meta, given, storage, remote_server, form, control, qseed, case, skip_nodes, skip_edges, form == "subset")
            gc.collect()
            left = os.listdir(temp)
            if left:
                ctx.fail("downloaded copies were left", "%s" % left, case)
            for d in before:
                if content(d) != before[d]:
                    ctx.fail("files of a source were changed", os.path.basename(d), case)
            if control.written:
                ctx.fail("a source was written to", str(control.written[:3]), case)
            if not remote:
                if control.fetched:
                    ctx.fail("a local graph was transferred", str(control.fetched[:3]), case)
                ctx.count("in place")
            ctx.count("transfers", len(control.fetched))
            if log is not None:
                # Samples depend on a seed only: all ways to load all partitions have to agree.
                if form != "subset" and not remote_server:
                    if want is None:
                        want = log
                    elif want != log:
                        i = next((i for i, (x, y) in enumerate(zip(want, log)) if x != y), min(len(want), len(log)))
                        ctx.fail("answers differ from those of a local copy", "call %d of %d: %s" % (i, len(want), str([want[i : i + 1], log[i : i + 1]])[:700]), case)
                ctx.count("loads")
                if g.temporal:
                    ctx.count("temporal")
                if form == "described locally":
                    ctx.count("local description")
                if form == "subset":
                    ctx.count("subset")
                ctx.count("servers" if remote_server else storage)
            ctx.case("%s %s %s %s" % (ctx.name, gi, form, storage), remote or form == "local", case)


def load(ctx, job, g, model, meta, given, storage, remote_server, form, control, qseed, case, skip_nodes, skip_edges, subset):
    from deepgnn.graph_engine.snark import client, server
    from deepgnn.graph_engine.snark.client import PartitionStorageType as S

    before = list(given)
    if remote_server:
        address = native.address()
        s = ctx.call("start server", server.Server, meta, given, address, storage_type=S[storage], case=case)
        graph = ctx.call("connect", client.DistributedGraph, [address], case=case)
    elif form == "failing":
        try:
            graph = client.MemoryGraph(meta, given, S[storage])
        except OSError as e:
            if "injected" not in str(e):
                ctx.fail("another error than that of the file system", repr(e), case)
            ctx.count("failed transfers")
            return None
        if control.failures:
            ctx.fail("a failed transfer was ignored", "%s" % control.fetched[-1:], case)
    else:
        graph = ctx.call("load", client.MemoryGraph, meta, given, S[storage], case=case)
    if given != before:
        ctx.fail("the list of partitions was changed", "%s" % given, case)
    rec = oracle.Recorder(graph)
    q = random.Random(qseed)
    try:
        p = oracle.Probe(ctx, model, rec, q, form, case=case)
        for k in range(job["rounds"]):
            p.any(None)
        for how in ("weighted", "uniform", "distinct"):
            p.sample(how, model.temporal and q.random() < 0.6, repeat=False)
        log = list(rec.log)
        for kind, skipped in (("node", skip_nodes), ("edge", skip_edges)):
            if skipped:
                ctx.count("no samplers")
                continue
            samplers(ctx, g, model, graph, kind, case, subset)
    finally:
        graph.reset()
        if remote_server:
            s.reset()
            native.clear()
    return log


def samplers(ctx, g, model, graph, kind, case, subset):
    from deepgnn.graph_engine.snark import client

    elements = [((n,), x.type) for n, x in model.nodes.items()] if kind == "node" else [((e.src, e.dst, e.type), e.type) for e in model.edges]
    for t in sorted({t for _, t in elements}):
        mine = sorted(k for k, x in elements if x == t)
        if subset:
            continue
        cls = client.NodeSampler if kind == "node" else client.EdgeSampler
        s = ctx.call("create sampler", cls, graph, [t], "withoutreplacement", case=case)
        got = ctx.call("sample", s.sample, len(mine), 7, case=case)
        s.reset()
        columns = got[:1] if kind == "node" else got
        rows = sorted(tuple(int(c[i]) for c in columns) for i in range(len(mine)))
        if rows != mine:
            ctx.fail("sampler misses elements", "%s of type %d: %s instead of %s" % (kind, t, rows[:6], mine[:6]), case)
        ctx.count("samplers")
