"""The command line tools do what their arguments say."""
import argparse
import copy
import json
import logging
import os
import runpy
import shutil
import signal
import subprocess
import sys
import threading
import time

import numpy as np

import binfmt
import gmodel
import native
import oracle

LEVEL = "exploration"
RULE = "one case is one run of a tool (or of one parser) with a command line, compared with what the arguments ask for; nontrivial when the graph has at least two nodes or the text at least one item; distinct by tool, arguments and graph"
ASSUMPTIONS = [
    "graphs of at most 40 nodes, up to 4 workers and 9 partitions",
    "the server tool runs inside of the process of the check with the in-process transport, and is stopped by an interrupt of its main thread",
    "tools that start a model are not part of the check",
]
BUILDS = ["rel"]
NEED = {
    "converted": 10, "several workers": 1, "merged": 1, "tables left out": 1, "tables kept on request": 1, "servers": 12, "partitions by list": 2, "partitions by group": 2, "from disk": 1,
    "no features": 1, "no times": 1, "stopped": 12, "storage observed": 10, "local clients": 6, "remote clients": 6, "lists": 400, "booleans": 100, "refused": 20,
}
POLICY = json.dumps({"methodConfig": [{"name": [{}], "retryPolicy": {"maxAttempts": 1, "initialBackoff": "0.1s", "maxBackoff": "0.1s", "backoffMultiplier": 1, "retryableStatusCodes": ["UNAVAILABLE"]}}]})
TRUE = ["true", "True", "yes", "Yes", "1", "t", "y", "TRUE"]
FALSE = ["false", "False", "no", "No", "0", "f", "n", "FALSE"]


def plan(tier, seed):
    big = tier == "thorough"
    jobs = [{"name": "convert%d" % i, "config": "rel", "kind": "convert", "cases": 30 if big else 6} for i in range(6)]
    jobs += [{"name": "server%d" % i, "config": "rel", "kind": "server", "cases": 60 if big else 12} for i in range(3)]
    jobs += [{"name": "options%d" % i, "config": "rel", "kind": "options", "cases": 80 if big else 20} for i in range(2)]
    jobs += [{"name": "text", "config": "rel", "kind": "text", "cases": 4000 if big else 600}]
    return jobs


def run(job, ctx):
    logging.disable(logging.CRITICAL)
    r = ctx.rng(job["name"])
    for k in range(job["cases"]):
        with ctx.trial():
            {"convert": convert, "server": server, "options": options, "text": text}[job["kind"]](ctx, r, k)


def graph(r, temporal=None, kinds=("dense", "string", "sparse"), nodes=None):
    temporal = r.random() < 0.4 if temporal is None else temporal
    g = gmodel.random_graph(
        r,
        nodes=nodes or r.choice([2, 6, 20, 40]),
        ntypes=r.randint(1, 3),
        etypes=r.randint(1, 3),
        degree=r.choice([1, 3, 6]),
        kinds=("dense",) if temporal else kinds,
        temporal=temporal,
        weights="exact",
        node_weights="exact",
        features=r.choice([0.4, 0.9]),
    )
    return oracle.prepare(r, g)


# ---- conversion


def tool(ctx, module, args, case):
    ctx.at({"op": module, "args": args})
    p = subprocess.run([sys.executable, "-m", "deepgnn.graph_engine.snark." + module] + args, cwd=ctx.scratch, capture_output=True, text=True)
    if p.returncode != 0:
        ctx.fail("%s tool fails" % module, "%s\n%s" % (args, p.stderr[-1500:]), case)
    return p


def spell(r, *names):
    """A flag in one of its spellings, followed by a value."""
    return lambda value: ["%s=%s" % (names[-1], value)] if r.random() < 0.3 else [r.choice(names), str(value)]


def convert(ctx, r, k):
    form = ["json", "tsv", "edgelist", None][k % 4]
    g = graph(r, temporal=False if form in ("tsv", "edgelist") else None, kinds=("dense",) if form in ("tsv", "edgelist") else ("dense", "string", "sparse"))
    if form in ("tsv", "edgelist"):
        for it in list(g.nodes.values()) + g.edges:
            for f in it.feats.values():
                if form == "tsv" and f.dtype not in gmodel.TSV_CODES:
                    f.dtype = r.choice(sorted(gmodel.TSV_CODES))
                    f.values = gmodel.rand_values(r, f.dtype, len(f.values))
        lines = list(gmodel.tsv_lines(g) if form == "tsv" else gmodel.edge_list_lines(g))
    else:
        lines = list(gmodel.json_lines(g))
    workers = 1 if form == "edgelist" else r.choice([1, 1, 2, 4])
    parts = r.choice([workers, 2 * workers, 2 * workers + 1]) if form != "edgelist" else r.choice([1, 2])
    src, out = os.path.join(ctx.scratch, "in%d" % k), os.path.join(ctx.scratch, "out%d" % k)
    os.makedirs(out)
    os.makedirs(src)
    for w in range(workers):
        gmodel.write_lines(os.path.join(src, "f%d" % w), lines[len(lines) * w // workers : len(lines) * (w + 1) // workers])
    args = spell(r, "-d", "--data")(src if workers > 1 or r.random() < 0.5 else os.path.join(src, "f0"))
    args += spell(r, "-o", "--out")(out) + spell(r, "-p", "--partitions")(parts)
    if form is not None:
        args += spell(r, "-t", "--type")(r.choice([form, form.upper()]))
    if g.temporal:
        args += spell(r, "--watermark")(g.watermark)
    skip = {}
    for what in ("node", "edge"):
        value = r.choice([None, r.choice(TRUE), r.choice(FALSE)])
        skip[what] = value in TRUE
        if value is not None:
            args += spell(r, "--skip_%s_sampler" % what)(value)
            ctx.count("tables left out" if skip[what] else "tables kept on request")
    case = {"args": args, "workers": workers, **g.summary()}
    for w in r.sample(range(workers), workers):
        more = spell(r, "-i", "--worker_index")(w) + spell(r, "-n", "--worker_count")(workers) if workers > 1 else []
        tool(ctx, "convert", args + more, {**case, "worker": w})
    if workers > 1:
        ctx.count("several workers")
        tool(ctx, "meta_merger", spell(r, "-d", "--data_dir")(out), case)
        ctx.count("merged")
    have = binfmt.partitions(out)
    if have != list(range(parts)):
        ctx.fail("other number of partitions", "%s instead of %d" % (have, parts), case)
    meta = binfmt.meta(out)
    if len(meta["partitions"]) != parts or meta["node_count"] != len(g.nodes) or meta["edge_count"] != len(g.edges) or meta["watermark"] != (-1 if g.watermark is None else g.watermark):
        ctx.fail("other metadata", json.dumps(meta)[:300], case)
    for what, want in (("node", {id: n.type for id, n in g.nodes.items()}), ("edge", {(e.src, e.dst): e.type for e in g.edges})):
        types = g.n_node_types() if what == "node" else g.n_edge_types()
        tables = [binfmt.Partition(out, p).alias(what, t) for p in range(parts) for t in range(types)]
        items = {x[0] for t in tables if t for x in t}
        if skip[what] and any(t is not None for t in tables):
            ctx.fail("%s tables written though they were to be left out" % what, "%d of %d" % (sum(t is not None for t in tables), len(tables)), case)
        if not skip[what] and (any(t is None for t in tables) or items != set(want)):
            ctx.fail("%s tables missing or incomplete" % what, "%d tables absent, items %d of %d" % (sum(t is None for t in tables), len(items), len(want)), case)
    mg = ctx.call("load", native.memory_graph, out, list(range(parts)), case=case)
    p = oracle.Probe(ctx, g, mg, r, "%s by tool" % (form or "default form"), case={"args": args})
    for _ in range(6):
        with ctx.trial():
            p.any(None, True, g.temporal)
    mg.reset()
    ctx.count("converted")
    ctx.case(("convert", ctx.name, k), len(g.nodes) > 1, case)
    shutil.rmtree(out)
    shutil.rmtree(src)


# ---- servers


def stopped(ctx, address, case):
    """Nobody answers at the address."""
    from deepgnn.graph_engine.snark import client

    try:
        client.DistributedGraph([address], grpc_options=[("grpc.service_config", POLICY)])
    except Exception:
        ctx.count("stopped")
        return
    ctx.fail("server answers after it was stopped", address, case)


def where_from(ctx, dg, g, out, storage, case):
    """Change the files under the server: only a server with disk storage sees it."""
    feats = [(n.id, fid, f.bytes_at()) for n in g.nodes.values() for fid, f in n.feats.items() if f.kind in ("dense", "string")]
    feats = [x for x in feats if len(x[2]) > 0][:5]
    if not feats or g.temporal:
        return
    for f in os.listdir(out):
        if f.startswith("node_features_") and f.endswith(".data"):
            data = np.fromfile(os.path.join(out, f), dtype=np.uint8)
            with open(os.path.join(out, f), "r+b") as h:
                h.write((data ^ 0xFF).tobytes())
    for id, fid, want in feats:
        got = dg.node_features(np.array([id], dtype=np.int64), np.array([[fid, len(want)]], dtype=np.int32), np.uint8)[0].tobytes()
        flipped = bytes(x ^ 0xFF for x in want)
        if got != (flipped if storage == "disk" else want):
            ctx.fail("another storage than asked for", "features come from %s, asked for %s" % ({flipped: "disk", want: "memory"}.get(got, "nowhere"), storage or "memory"), case)
        ctx.count("storage observed")


def server(ctx, r, k):
    from deepgnn.graph_engine.snark import client

    g = graph(r, nodes=r.choice([9, 20, 40]))
    parts = r.choice([1, 2, 3, 6, 9])
    out = os.path.join(ctx.scratch, "g%d" % k)
    where = gmodel.even_assign(g, parts)
    gmodel.convert(g, out, parts, where)
    port = native.address().rsplit(":", 1)[1]
    args = spell(r, "--port")(port) + spell(r, "--data_dir")(out)
    if r.random() < 0.5:
        pick = r.sample(range(parts), r.randint(1, parts))
        args += spell(r, "--partitions")(",".join(map(str, pick)))
        ctx.count("partitions by list")
    else:
        total = r.choice([1, 2, 3, parts])
        index = r.randrange(min(total, parts))
        pick = [p for p in range(parts) if p % total == index]
        args += spell(r, "--server_group")("%d,%d,%d" % (index, total, parts))
        ctx.count("partitions by group")
    storage = r.choice([None, "memory", "disk"])
    if storage:
        args += spell(r, "--storage_type")(storage)
    if storage == "disk":
        ctx.count("from disk")
    skip_f = r.random() < 0.4
    skip_t = g.temporal and r.random() < 0.5
    if skip_f:
        args += ["--skip_feature_loading"]
        ctx.count("no features")
    if skip_t:
        args += ["--skip_temporal_loading"]
        ctx.count("no times")
    if r.random() < 0.3:
        # Arguments of other tools are let through.
        args += ["--unknown_argument", "5"]
    case = {"args": args, **g.summary()}
    ctx.at({"op": "server", "args": args})
    sub = g.subset([n for n in g.nodes if where(n) in pick])
    if skip_f or skip_t:
        sub = copy.deepcopy(sub)
        if skip_t:
            sub.watermark = None
        if skip_f:
            for it in list(sub.nodes.values()) + sub.edges:
                it.feats = {}
    native.reset_counters()
    over, started, address, errors = threading.Event(), [], [], []
    main = threading.main_thread().ident

    def use():
        try:
            while not over.is_set():
                now = [s["address"] for s in native.dump()["servers"]]
                mine = [a for a in now if a.rsplit(":", 1)[-1] == port]
                if now and not mine:
                    ctx.violation("server listens elsewhere", "%s instead of port %s" % (now, port), case)
                    break
                if mine:
                    started.append(1)
                    address.append(mine[0])
                    break
                time.sleep(0.02)
            if started:
                dg = client.DistributedGraph(address)
                try:
                    q = oracle.Probe(ctx, sub, dg, r, "server %s" % " ".join(args[4:]), case={"args": args})
                    for _ in range(8):
                        with ctx.trial():
                            q.any(None, not skip_t, g.temporal and not skip_t)
                    with ctx.trial():
                        where_from(ctx, dg, sub, out, storage, case)
                finally:
                    dg.reset()
        except BaseException as e:
            errors.append(e)
        finally:
            # The tool waits until it is interrupted.
            while not over.is_set():
                if started or errors:
                    signal.pthread_kill(main, signal.SIGINT)
                over.wait(2)

    argv, handler = sys.argv, signal.getsignal(signal.SIGINT)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    t = threading.Thread(target=use)
    ended = None
    try:
        sys.argv = ["server"] + args
        t.start()
        try:
            runpy.run_module("deepgnn.graph_engine.snark.server", run_name="__main__")
        except (Exception, SystemExit, KeyboardInterrupt) as e:
            ended = e
        signal.signal(signal.SIGINT, signal.SIG_IGN)
    finally:
        over.set()
        sys.argv = argv
        t.join()
        signal.signal(signal.SIGINT, handler)
    if errors:
        raise errors[0]
    if ended is not None and not (started and isinstance(ended, KeyboardInterrupt)):
        ctx.fail("server tool fails", "%s: %s" % (type(ended).__name__, ended), case)
    if not started:
        ctx.fail("server tool ends without serving", "", case)
    ctx.count("servers")
    stopped(ctx, address[0], case)
    ctx.case(("server", ctx.name, k), len(sub.nodes) > 1, case)
    shutil.rmtree(out)


# ---- options of clients


def options(ctx, r, k):
    """Command line of a program that uses a graph -> the graph its backend reads."""
    from deepgnn.graph_engine import define_param_graph_engine
    from deepgnn.graph_engine.backends.options import BackendOptions
    from deepgnn.graph_engine.graph_dataset import create_backend

    g = graph(r)
    remote = k % 2 == 1
    parts = r.choice([1, 2, 3]) if remote else 1
    out = os.path.join(ctx.scratch, "g%d" % k)
    gmodel.convert(g, out, parts, gmodel.even_assign(g, parts))
    parser = argparse.ArgumentParser()
    define_param_graph_engine(parser)
    args = []
    cluster = None
    if remote:
        cluster = ctx.call("start servers", native.Cluster, out, [[p] for p in range(parts)])
        args += ["--graph_type", "remote", "--skip_ge_start", r.choice(TRUE), "--servers"] + r.sample(cluster.addresses, parts)
        if r.random() < 0.5:
            # A certificate without the switch must not be used.
            args += ["--ssl_cert", "certificate"]
    elif r.random() < 0.5:
        args += ["--graph_type", "local"]
    if not remote or r.random() < 0.3:
        args += ["--data_dir", out]
    if r.random() < 0.5:
        args += ["--enable_ssl", r.choice(FALSE)]
    if r.random() < 0.3:
        args += ["--backend", "snark"]
    if r.random() < 0.3:
        args += ["--converter", r.choice(["skip", "local"])]
    if r.random() < 0.3:
        args += ["--num_ge", str(r.randint(0, 5)), "--ge_start_timeout", str(r.randint(1, 90))]
    case = {"args": args, **g.summary()}
    ctx.at({"op": "options", "args": args})
    try:
        parsed = parser.parse_args(args)
    except SystemExit as e:
        ctx.fail("valid command line refused", "%s" % e, case)
    backend = ctx.call("create backend", create_backend, BackendOptions(parsed), is_leader=True, case=case)
    dg = backend.graph
    ids = np.array(sorted(g.nodes), dtype=np.int64)
    got = ctx.call("node types", dg.node_types, ids, case=case)
    if [int(x) for x in got] != [g.nodes[int(n)].type for n in ids]:
        ctx.fail("another graph was opened", "types %s" % got[:10], case)
    # The watermark is where a graph without times in the query ends.
    if not g.temporal:
        res = ctx.call("neighbors", dg.neighbors, ids, np.array(g.edge_types() or [0], dtype=np.int32), case=case)
        want = [len(g.neighbors(int(n), g.edge_types(), None)) for n in ids]
        if [int(c) for c in res[3]] != want:
            ctx.fail("another graph was opened", "neighbor counts %s expected %s" % (res[3][:10], want[:10]), case)
    if remote:
        used = {c["target"].rsplit(":", 1)[-1] for c in native.dump()["channels"]}
        miss = [a for a in cluster.addresses if a.rsplit(":", 1)[-1] not in used]
        if miss:
            ctx.fail("not all servers are used", "%s" % miss, case)
    backend.close()
    if cluster:
        if hasattr(dg, "reset"):
            dg.reset()
        cluster.close()
    # Values outside of the documented ones are refused.
    for bad in (["--graph_type", "other"], ["--backend", "unknown"], ["--skip_ge_start", "maybe"], ["--converter", "x"], ["--num_ge", "two"]):
        if r.random() < 0.6:
            continue
        with open(os.devnull, "w") as null:
            err, sys.stderr = sys.stderr, null
            try:
                parser.parse_args(bad)
            except SystemExit:
                ctx.count("refused")
            else:
                ctx.violation("invalid command line accepted", "%s" % bad, {"args": bad})
            finally:
                sys.stderr = err
    ctx.count("remote clients" if remote else "local clients")
    ctx.case(("options", ctx.name, k), len(g.nodes) > 1, case)
    shutil.rmtree(out)


def text(ctx, r, k):
    """Values written as text come back."""
    import deepgnn

    rows = [[r.choice([0, 1, -1, 7, 10**6, r.randint(-(2**40), 2**40)]) for _ in range(r.randint(1, 5))] for _ in range(r.randint(1, 4))]
    one = rows[0]
    words = [["w%d" % abs(x) for x in row] for row in rows]
    flat = ",".join(map(str, one))
    deep = ";".join(",".join(map(str, row)) for row in rows)
    if r.random() < 0.3:
        deep += ";"
    vec = np.array(one) if r.random() < 0.5 else np.array(one, dtype=np.float64) / 4
    box = np.array([one, one[::-1], one])
    parsed = [
        ("str2list_int", deepgnn.str2list_int, flat, one),
        ("str2list_int of a list", deepgnn.str2list_int, one, one),
        ("str2list_int of nothing", deepgnn.str2list_int, "", []),
        ("str2list2_int", deepgnn.str2list2_int, deep, rows),
        ("str2list2_int of a list", deepgnn.str2list2_int, rows, rows),
        ("str2list2_int of nothing", deepgnn.str2list2_int, "", []),
        ("str2list2", deepgnn.str2list2, ";".join(",".join(w) for w in words), words),
        ("str2list_str", deepgnn.str2list_str, ",".join(words[0]), words[0]),
    ]
    for name, fn, arg, want in parsed:
        got = ctx.call(name, fn, arg, case={"arg": arg})
        if got != want:
            ctx.fail("%s: other value" % name, "%r gives %r expected %r" % (arg, got, want), {"arg": arg})
    line = ctx.call("vec2str", deepgnn.vec2str, vec)
    if [float(x) for x in line.split(" ")] != vec.tolist():
        ctx.fail("vec2str: other value", "%s gives %r" % (vec, line), {"arg": vec.tolist()})
    line = ctx.call("vec2str", deepgnn.vec2str, box)
    if [[int(x) for x in row.split(" ")] for row in line.split(",")] != box.tolist():
        ctx.fail("vec2str: other value", "%s gives %r" % (box, line), {"arg": box.tolist()})
    ctx.count("lists", len(parsed) + 2)
    for value, pool in ((True, TRUE + [True]), (False, FALSE + [False])):
        x = r.choice(pool)
        if ctx.call("str2bool", deepgnn.str2bool, x, case={"arg": x}) is not value:
            ctx.fail("str2bool: other value", "%r" % (x,), {"arg": x})
        ctx.count("booleans")
    ctx.case(("text", k), True, {"text": deep})
