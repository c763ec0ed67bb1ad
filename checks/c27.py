"""Settings of connections, compared with what the transport was given."""
import os
import shutil
import time
from argparse import Namespace

import numpy as np

import gmodel
import native
import oracle

LEVEL = "exploration"
RULE = "one case is one connection between a client and its servers; it is nontrivial when encryption, options or large messages are involved, and distinct by settings on both sides"
ASSUMPTIONS = [
    "the transport is a stand-in that records credentials, options and sizes, refuses a handshake between a plain and an encrypted side or without trust, and enforces message limits like the real one",
    "certificates are given as text; trust means that the client's root is the server's root or its certificate",
]
BUILDS = ["rel"]
NEED = {
    "client graph": 20, "client wrapper": 20, "client backend": 20, "client waiting backend": 5,
    "server plain": 20, "server encrypted": 40, "mismatch refused": 20, "untrusted refused": 10, "encrypted answer": 30,
    "options": 40, "odd option values": 20, "large reply": 2, "large request": 2, "own limit": 2, "threads": 4, "switched off": 10,
}
FORMS = ["graph", "wrapper", "backend", "waiting backend"]


class Quiet:
    """Stands in for a server whose start others wait for."""

    def reset(self):
        pass


def plan(tier, seed):
    big = tier == "thorough"
    jobs = [{"name": "conn%d" % i, "config": "rel", "kind": "conn", "rounds": 150 if big else 80} for i in range(4 if big else 3)]
    jobs += [{"name": "big%d" % i, "config": "rel", "kind": "big", "rounds": 6 if big else 2} for i in range(2 if big else 1)]
    jobs += [{"name": "threads%d" % i, "config": "rel", "kind": "threads", "rounds": 20 if big else 10} for i in range(1)]
    return jobs


def text(r, what):
    body = "".join(r.choice("ABCDEFabcdef0123456789+/") for _ in range(r.choice([20, 64, 900])))
    return "-----BEGIN %s-----\n%s\n-----END %s-----\n" % (what, body, what)


def options(ctx, r):
    """Options and the numbers and texts they stand for."""
    pool = [
        ("grpc.ssl_target_name_override", "graph.example.com", str),
        ("grpc.ssl_target_name_override", "10.0.0.%d" % r.randint(1, 250), str),
        ("grpc.keepalive_time_ms", "%d" % r.randint(1, 2**31 - 1), int),
        ("grpc.min_reconnect_backoff_ms", r.randint(0, 10000), int),
        ("grpc.initial_reconnect_backoff_ms", -1, int),
        ("grpc.lb_policy_name", "round_robin", str),
        ("grpc.primary_user_agent", "%dgnn" % r.randint(1, 99), str),
        ("grpc.default_authority", "%d.%d" % (r.randint(1, 9), r.randint(1, 9)), str),
        ("grpc.secondary_user_agent", "9%d" % 10**12, str),
        ("verif.note", "größe", str),
        ("verif.empty", "", str),
    ]
    pick = {}
    for k, v, t in r.sample(pool, r.choice([0, 1, 3, 6])):
        pick[k] = (v, t)
    if any(t is str and str(v)[:1].isdigit() for v, t in pick.values()):
        ctx.count("odd option values")
    opts = [(k, v) for k, (v, _) in pick.items()]
    ints = {k: int(v) for k, (v, t) in pick.items() if t is int}
    strings = {k: str(v) for k, (v, t) in pick.items() if t is str}
    return opts, ints, strings


def run(job, ctx):
    r = ctx.rng(job["name"])
    g = gmodel.random_graph(r, nodes=12, ntypes=2, etypes=2, degree=4, kinds=("dense",), weights="exact", features=2, parallel=False)
    if job["kind"] == "big":
        for n in g.nodes.values():
            n.feats[0] = gmodel.Feat("dense", "uint8", gmodel.rand_values(r, "uint8", 2500))
            n.blanks = {}
    out = os.path.join(ctx.scratch, "g")
    gmodel.convert(g, out, 2, gmodel.even_assign(g, 2))
    if job["kind"] == "conn":
        for k in range(job["rounds"]):
            with ctx.trial():
                connect(ctx, r, g, out, k)
    elif job["kind"] == "big":
        for k in range(job["rounds"]):
            with ctx.trial():
                big(ctx, r, g, out, k)
    else:
        for k in range(job["rounds"]):
            with ctx.trial():
                threads(ctx, r, g, out, k)


def start(ctx, r, out, secure, case):
    """Two servers with the same kind of settings; each with a key of its own."""
    from deepgnn.graph_engine.snark import distributed, server

    servers, conf = [], []
    root = text(r, "CERTIFICATE")
    cert = text(r, "CERTIFICATE")
    for p in range(2):
        ssl = {"ssl_key": text(r, "PRIVATE KEY"), "ssl_cert": cert, "ssl_root": root} if secure else None
        addr = native.address()
        form = r.choice(["server", "wrapper"])
        if form == "server":
            s = ctx.call("start server", server.Server, out, [(out, p)], addr, ssl, case=case)
        else:
            s = ctx.call("start server", lambda: distributed.Server(addr, out, p, 2, **(ssl or {})), case=case)
        servers.append(s)
        conf.append((addr, ssl))
        seen = [x for x in native.dump()["servers"] if x["address"] == addr]
        if len(seen) != 1:
            ctx.fail("server: does not listen at its address", "%s: %d" % (addr, len(seen)), case)
        x = seen[0]
        if secure and not x["secure"]:
            ctx.fail("server: accepts plain connections despite a key", "%s" % form, case)
        if not secure and x["secure"]:
            ctx.fail("server: encrypted without a key", "%s" % form, case)
        if secure and (x["pairs"] != [[ssl["ssl_key"], ssl["ssl_cert"]]] or x["root"] != root):
            ctx.fail("server: other certificates than given", "%s: pairs and root differ" % form, case)
        ctx.count("server encrypted" if secure else "server plain")
    return servers, [a for a, _ in conf], root, cert


def open_client(ctx, r, form, addresses, cert, enable, opts, threads, cqs):
    """Returns a function giving the graph interface, and one releasing everything."""
    from deepgnn.graph_engine.backends.options import BackendOptions, GraphType
    from deepgnn.graph_engine.backends.snark.synchronized import SynchronizedServer
    from deepgnn.graph_engine.graph_dataset import BackendType, create_backend
    from deepgnn.graph_engine.snark import client, distributed

    if form == "graph":
        c = client.DistributedGraph(list(addresses), cert, num_threads=threads, num_cq_per_thread=cqs, grpc_options=opts)
        return c, c.reset
    if form == "wrapper":
        c = distributed.Client(list(addresses), cert, grpc_options=opts, num_threads=threads, num_cq_per_thread=cqs)
        return c, c.reset
    ns = dict(graph_type=GraphType.REMOTE, backend=BackendType.SNARK, servers=list(addresses), enable_ssl=enable, ssl_cert=cert or "", num_threads=threads, num_cq_per_thread=cqs)
    if opts is not None:
        ns["grpc_options"] = opts
    if form == "backend":
        b = create_backend(BackendOptions(Namespace(skip_ge_start=True, **ns)), True)
        return b.graph, b.close
    sync = os.path.join(ctx.scratch, "sync%d" % len(os.listdir(ctx.scratch)))
    os.makedirs(sync)
    up = [SynchronizedServer(sync, i, 60, Quiet) for i in range(len(addresses))]
    try:
        b = create_backend(BackendOptions(Namespace(model_dir=sync, sync_dir=sync, server_idx=-1, client_rank=0, ge_start_timeout=60, **ns)), True)
        try:
            graph = b.graph
        except BaseException:
            b.close()
            raise
    except BaseException:
        for s in up:
            s.reset()
        raise

    def close():
        b.close()
        for s in up:
            s.reset()

    return graph, close


def connect(ctx, r, g, out, k):
    from deepgnn.graph_engine.snark import client as snark_client

    secure = r.random() < 0.65
    form = r.choices(FORMS, [3, 3, 3, 1])[0]
    opts, ints, strings = options(ctx, r)
    give = opts if opts or r.random() < 0.5 else None
    case = {"round": k, "form": form, "server encrypted": secure, "options": opts}
    ctx.at({"op": "start", "case": case})
    servers, addresses, root, cert = start(ctx, r, out, secure, case)
    trust = r.choice(["root", "cert", "root", "cert", "other", "other", "none"])
    mine = {"root": root, "cert": cert, "other": text(r, "CERTIFICATE"), "none": None}[trust]
    enable = mine is not None
    if form in ("backend", "waiting backend") and mine and r.random() < 0.4:
        # A certificate that is present but not to be used.
        enable = False
        ctx.count("switched off")
    case["client certificate"] = trust
    case["encryption enabled"] = enable
    want_secure = enable and mine is not None
    fits = want_secure == secure and (not secure or trust in ("root", "cert"))
    before = len(native.dump()["channels"])
    ctx.at({"op": "connect", "case": case})
    error, graph, close = None, None, None
    # A client that is refused gives up at once.
    try:
        graph, close = open_client(ctx, r, form, addresses, mine, enable, give, 2, 1)
    except Exception as e:
        error = e
    channels = [x for x in native.dump()["channels"][before:]]
    if not channels and error is not None:
        ctx.fail("client: failed before connecting", "%s: %s" % (type(error).__name__, error), case)
    for x in channels:
        if want_secure and (not x["secure"] or x["root"] != mine):
            ctx.fail("client: plain connection or another root despite a certificate", "form %s: secure %s, root as given %s" % (form, x["secure"], x["root"] == mine), case)
        if not want_secure and x["secure"]:
            ctx.fail("client: encrypted without being asked to", "form %s" % form, case)
        got_ints = {a: b for a, b in x["ints"].items() if a != "grpc.max_receive_message_length"}
        if got_ints != ints or x["strings"] != strings:
            ctx.fail("client: other options than given", "form %s: %s %s, given %s %s" % (form, got_ints, x["strings"], ints, strings), case)
    if sorted({x["target"] for x in channels}) != sorted(addresses):
        ctx.fail("client: connects to other addresses", "%s, given %s" % (sorted({x["target"] for x in channels}), addresses), case)
    if opts:
        ctx.count("options", len(channels))
    if fits:
        if error is not None:
            ctx.fail("client: cannot connect with fitting settings", "form %s: %s: %s" % (form, type(error).__name__, error), case)
        inner = graph if isinstance(graph, snark_client.MemoryGraph) else graph.graph
        probe = oracle.Probe(ctx, g, inner, r, "form %s" % form, case=case)
        for _ in range(3):
            probe.any()
        ctx.count("encrypted answer", int(secure))
    elif error is None:
        # The connection may also be refused at the first query.
        try:
            inner = graph if isinstance(graph, snark_client.MemoryGraph) else graph.graph
            inner.node_types(np.array(list(g.nodes)[:3], dtype=np.int64), -1)
        except Exception:
            pass
        else:
            ctx.fail("client: talks to a server with other encryption settings", "form %s, client certificate %s, server encrypted %s" % (form, trust, secure), case)
    if not fits:
        ctx.count("untrusted refused" if secure and want_secure else "mismatch refused")
    if close:
        close()
    for s in servers:
        s.reset()
    ctx.count("client " + form)
    ctx.case((ctx.name, form, secure, trust, enable, str(opts)), bool(opts) or secure or want_secure, {"form": form, "server encrypted": secure, "client": trust, "options": opts[:2], "refused": not fits})


def big(ctx, r, g, out, k):
    """Messages above the usual limit of four megabytes, both ways."""
    with native.cluster(out, [[0], [1]]) as cl:
        native.reset_counters()
        c = cl.client()
        ids = list(g.nodes)
        n = 1_000_000
        # Numbers of unknown nodes are long, so that a request is large whatever the other numbers are.
        ids += [2**62 + 100 + i for i in range(len(ids)) if 2**62 + 100 + i not in g.nodes]
        nodes = np.array(ids, dtype=np.int64)[np.arange(n) % len(ids)]
        case = {"nodes": n}
        ctx.at({"op": "large request", "case": case})
        got = ctx.call("node_types with a large request", c.node_types, nodes, -1, case=case)
        want = np.array([g.nodes[i].type if i in g.nodes else -1 for i in ids])[np.arange(n) % len(ids)]
        if not np.array_equal(got, want):
            ctx.fail("large messages: wrong answer", "%d of %d" % (int((got != want).sum()), n), case)
        size = native.dump()
        if size["largest_request"] > 4_500_000:
            ctx.count("large request")
        fid, width, rows = 0, 2500, 12000
        ctx.at({"op": "large reply", "case": case})
        got = ctx.call("node_features with a large reply", c.node_features, nodes[:rows], np.array([[fid, width]], dtype=np.int32), np.uint8, case=case)
        for i in range(rows):
            f = g.nodes[int(nodes[i])].feats.get(fid) if int(nodes[i]) in g.nodes else None
            raw = (f.bytes_at(None) if f else b"")[:width].ljust(width, b"\0")
            if got[i].tobytes() != raw:
                ctx.fail("large messages: wrong answer", "row %d" % i, case)
        reply = native.dump()["largest_reply"]
        if reply > 4_500_000:
            ctx.count("large reply")
        c.reset()
        # A limit given by the caller is in effect.
        c = cl.client(grpc_options=[("grpc.max_receive_message_length", "20000"), ("grpc.service_config", '{"methodConfig":[{"retryPolicy":{"maxAttempts":1,"initialBackoff":"0.01s","maxBackoff":"0.01s","backoffMultiplier":1}}]}')])
        try:
            c.neighbors(nodes[:100_000], g.edge_types())
        except Exception:
            ctx.count("own limit")
        else:
            ctx.fail("client: a message limit given as an option is not in effect", "reply of more than 20000 bytes accepted", case)
        c.reset()
        ctx.case((ctx.name, k), True, {"largest request": size["largest_request"], "largest reply": reply})


def thread_count():
    return len(os.listdir("/proc/self/task"))


def settled():
    last, same = thread_count(), 0
    for _ in range(200):
        time.sleep(0.01)
        now = thread_count()
        same = same + 1 if now == last else 0
        last = now
        if same >= 5:
            break
    return last


def threads(ctx, r, g, out, k):
    form = ["graph", "wrapper", "backend"][k % 3]
    with native.cluster(out, [[0, 1]]) as cl:
        used = {}
        for n in (2, 9):
            base = settled()
            graph, close = open_client(ctx, r, form, cl.addresses, None, False, None, n, 1)
            used[n] = settled() - base
            close()
            left = settled()
            if left > base:
                ctx.fail("client: threads stay after release", "form %s: %d before, %d after" % (form, base, left), {"form": form, "threads": n})
        if used[9] - used[2] < 7:
            ctx.fail("client: number of threads is not honoured", "form %s: %s threads" % (form, used), {"form": form})
        ctx.count("threads")
        ctx.case((ctx.name, form, k), True, {"form": form, "threads": used})
