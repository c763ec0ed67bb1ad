"""File based synchronization of servers and clients, every party in a process of its own."""
import glob
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import threading
import time

LEVEL = "exploration"
RULE = "one case is one run of several server and client processes with random start, ready, hold and stop times and one kind of disturbance; it is nontrivial when at least one announcement was observed, and distinct by configuration"
ASSUMPTIONS = [
    "polling pauses of the code are scaled down 50 times; nothing else of it is replaced",
    "a server is stopped only after all clients have been constructed, as the training backends do",
    "parties that wait although what they wait for has been true for 40 seconds on a machine that is not overloaded are hanging",
    "the wrapped server and client are stand-ins that record when they are created, used and released",
]
NEED = {"clients_created": 100, "alive_checks": 1000, "announcements": 150, "timeouts": 20, "late_releases": 20, "second_resets": 30, "forked": 2, "exits_after_errors": 2}

KINDS = ["normal", "normal", "workers", "workers", "missing", "failing", "late", "stale", "crash", "fork", "raise", "threads", "badclient", "stalerank"]
SCALE = 0.02
HANG = 40


def plan(tier, seed):
    n, k = (8, 28) if tier == "quick" else (8, 150)
    return [{"name": "y%d" % i, "cases": k, "offset": i * 5, "timeout": 850} for i in range(n)]


PARALLEL = 8


class Clock:
    """The time module with shorter sleeps."""

    def sleep(self, seconds):
        time.sleep(seconds * SCALE)

    def __getattr__(self, name):
        return getattr(time, name)


class Log:
    def __init__(self, folder, who):
        self.folder, self.who = folder, who

    def __call__(self, what, **kw):
        line = json.dumps(dict(kw, who=self.who, what=what, t=time.monotonic())) + "\n"
        fd = os.open(os.path.join(self.folder, "log"), os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
        os.write(fd, line.encode())
        os.close(fd)

    def bad(self, mech, text):
        self("bad", mech=mech, text=text)


class MonServer:
    def __init__(self, sync, mon, index, delay, fail):
        self.sync, self.log = sync, Log(mon, "server %d" % index)
        self.log("starting")
        time.sleep(delay)
        if fail:
            raise RuntimeError("server %d fails" % index)
        if os.path.exists(os.path.join(sync, "snark_%d.server" % index)):
            self.log.bad("server announced before it is ready", "server %d" % index)
        with open(os.path.join(mon, "tmp_%d" % index), "w") as f:
            f.write(str(os.getpid()))
        os.rename(os.path.join(mon, "tmp_%d" % index), os.path.join(mon, "ready_%d" % index))
        self.log("ready", pid=os.getpid())

    def reset(self):
        self.log("server released", clients=len(glob.glob(os.path.join(self.sync, "*.client"))))


class MonClient:
    def __init__(self, sync, mon, rank, servers, fail=False):
        self.sync, self.rank = sync, rank
        self.log = Log(mon, "client %d" % rank)
        missing = [i for i in range(servers) if not os.path.exists(os.path.join(mon, "ready_%d" % i))]
        if missing:
            self.log.bad("client created before servers are ready", "client %d, servers %s" % (rank, missing))
        if not os.path.exists(os.path.join(sync, "snark_%d.client" % rank)):
            self.log.bad("client created without being registered", "client %d" % rank)
        if fail:
            raise RuntimeError("client %d fails" % rank)
        self.log("created")

    def reset(self):
        if not os.path.exists(os.path.join(self.sync, "snark_%d.client" % self.rank)):
            self.log("released unregistered")
        self.log("client released")


def alive(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            return f.read().rsplit(")", 1)[1].split()[0] not in ("Z", "X")
    except OSError:
        return False


class Party:
    """What happens in one process."""

    def __init__(self, spec):
        self.__dict__.update(spec)
        self.log = Log(self.mon, self.name)

    def wait_file(self, name):
        while not os.path.exists(os.path.join(self.mon, name)):
            time.sleep(0.005)

    def flag(self, name):
        open(os.path.join(self.mon, name), "w").close()

    def make_server(self):
        from deepgnn.graph_engine.backends.snark import synchronized

        return synchronized.SynchronizedServer(self.sync, self.index, self.timeout, MonServer, self.sync, self.mon, self.index, self.ready_delay, self.fail)

    def make_client(self):
        from deepgnn.graph_engine.backends.snark import synchronized

        c = synchronized.SynchronizedClient(self.sync, self.rank, self.servers, self.timeout, MonClient, self.sync, self.mon, self.rank, self.servers, fail=self.fail_client)
        if not os.path.exists(os.path.join(self.sync, "snark_%d.client" % self.rank)):
            self.log.bad("client not registered", "client %d" % self.rank)
        self.flag("registered_%d" % self.rank)
        return c

    def watch(self, seconds):
        """Servers have to live while this client is registered, unless their timeout is short."""
        if self.timeout is not None and self.timeout < 60:
            time.sleep(seconds)
            return
        end = time.monotonic() + seconds
        n = 0
        while True:
            for i in range(self.servers):
                with open(os.path.join(self.mon, "ready_%d" % i)) as f:
                    pid = int(f.read())
                if not alive(pid):
                    self.log.bad("server stopped while a client is registered", "server %d, client %d" % (i, self.rank))
                    return
                if not os.path.exists(os.path.join(self.sync, "snark_%d.server" % i)):
                    self.log.bad("announcement withdrawn while a client is registered", "server %d, client %d" % (i, self.rank))
                    return
                n += 1
            if time.monotonic() >= end:
                break
            time.sleep(0.003)
        self.log("alive", n=n)

    def use_client(self, c):
        """Create the client, or see it time out; True when there is one."""
        start = time.monotonic()
        try:
            first = c.client
        except TimeoutError:
            self.log("timed out", start=start, T=self.timeout)
            if os.path.exists(os.path.join(self.sync, "snark_%d.client" % self.rank)):
                self.log.bad("client still registered after its timeout", "client %d" % self.rank)
            return False
        if c.client is not first:
            self.log.bad("client created twice", "client %d" % self.rank)
        if self.timeout is not None and time.monotonic() - start > self.servers * self.timeout + 30:
            self.log("slow")
        self.watch(self.hold)
        return True

    def close_client(self, c):
        c.reset()
        if os.path.exists(os.path.join(self.sync, "snark_%d.client" % self.rank)):
            self.log.bad("client still registered after its release", "client %d" % self.rank)
        for _ in range(self.again):
            c.reset()
            self.log("second reset")

    def close_server(self, s):
        self.log("reset begin", T=self.timeout)
        s.reset()
        self.log("reset end")
        if os.path.exists(os.path.join(self.sync, "snark_%d.server" % self.index)):
            self.log.bad("server still announced after its shutdown", "server %d" % self.index)
        for _ in range(self.again):
            s.reset()
            self.log("second reset")

    def wait_clients(self):
        for rank in self.ranks:
            self.wait_file("registered_%d" % rank)
        time.sleep(self.stop_delay)

    def __call__(self):
        time.sleep(self.start_delay)
        getattr(self, "do_" + self.role)()

    def do_server(self):
        s = self.make_server()
        self.wait_clients()
        self.close_server(s)

    def do_client(self):
        c = self.make_client()
        time.sleep(self.pause)
        self.use_client(c)
        self.close_client(c)

    def do_worker(self):
        s = self.make_server()
        c = self.make_client()
        time.sleep(self.pause)
        self.use_client(c)
        # A server may only be stopped once every client is known.
        for rank in self.ranks:
            self.wait_file("registered_%d" % rank)
        if self.together:
            t = threading.Thread(target=self.close_client, args=(c,))
            t.start()
            self.close_server(s)
            t.join()
        else:
            self.close_client(c)
            self.close_server(s)

    def do_crash(self):
        c = self.make_client()
        self.use_client(c)
        os._exit(0)

    def do_raise(self):
        s = self.make_server()
        c = self.make_client()
        self.use_client(c)
        self.log("raising")
        raise SystemExit(7)

    def do_fork(self):
        c = self.make_client()
        self.use_client(c)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                c.reset()
                code = 0
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        if status:
            self.log.bad("release in a forked process failed", "status %d" % status)
        if not os.path.exists(os.path.join(self.sync, "snark_%d.client" % self.rank)):
            self.log.bad("client unregistered by a forked process", "client %d" % self.rank)
        self.log("forked")
        self.watch(self.hold)
        self.close_client(c)

    def do_threads(self):
        c = self.make_client()
        got, errors = [], []

        def use():
            try:
                got.append(c.client)
            except Exception as e:
                errors.append(repr(e))

        threads = [threading.Thread(target=use) for _ in range(6)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        if errors or len(set(map(id, got))) != 1:
            self.log.bad("threads of one process got several clients", "%s %s" % (errors, got))
        self.watch(self.hold)
        self.close_client(c)

    def do_badclient(self):
        c = self.make_client()
        try:
            c.client
            self.log.bad("failure of a client not reported", "client %d" % self.rank)
        except RuntimeError:
            self.log("client failure seen")
        self.close_client(c)

    def do_stalerank(self):
        try:
            self.make_client()
            self.log.bad("client registered over a stale file", "client %d" % self.rank)
        except AssertionError:
            self.log("stale refused")
        self.flag("registered_%d" % self.rank)


def entry(party):
    try:
        party()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback

        party.log("error", error=type(e).__name__, text=traceback.format_exc()[-1500:])
        raise


def run(job, ctx):
    from deepgnn.graph_engine.backends.snark import synchronized

    synchronized.time = Clock()
    r = ctx.rng(job["name"])
    for k in range(job["cases"]):
        with ctx.trial():
            scenario(ctx, r, KINDS[(k + job["offset"]) % len(KINDS)], k)


def scenario(ctx, r, kind, k):
    base = os.path.join(ctx.scratch, "s%d" % k)
    sync, mon = os.path.join(base, "sync"), os.path.join(base, "mon")
    os.makedirs(sync)
    os.makedirs(mon)
    servers, clients = r.choice([1, 2, 3, 4]), r.choice([1, 1, 2, 3])
    if kind in ("workers", "raise"):
        clients = servers
    short = kind in ("missing", "failing", "stale", "crash", "raise", "late", "stalerank")
    T = r.choice([0.4, 0.8, 1.5]) if short else r.choice([None, 60])
    victim = r.randrange(servers) if kind in ("missing", "failing", "late") else None
    cfg = {"kind": kind, "servers": servers, "clients": clients, "timeout": T, "victim": victim}
    top = r.choice([0.02, 0.15, 0.4])
    lagging = r.randrange(servers + clients)

    def spec(name, role, i, **kw):
        d = {
            "name": name,
            "role": role,
            "sync": sync,
            "mon": mon,
            "servers": servers,
            "ranks": list(range(clients)),
            "timeout": T,
            "start_delay": r.random() * top,
            "ready_delay": r.random() * top,
            "pause": r.choice([0, 0, r.random() * top]),
            "hold": r.random() * top,
            "stop_delay": r.choice([0, 0, r.random() * top]),
            "again": r.choice([0, 0, 1, 2]),
            "fail": False,
            "fail_client": False,
            "together": r.random() < 0.4,
        }
        if i == lagging:
            d["start_delay" if role != "server" or r.random() < 0.5 else "ready_delay"] += r.choice([0, 0.3])
        d.update(kw)
        return d

    parties = []
    if kind in ("workers", "raise"):
        for i in range(servers):
            role = "raise" if kind == "raise" and i == 0 else "worker"
            if role == "worker" and kind == "raise":
                # The others close as usual; they only outlast the timeout.
                parties.append(spec("worker %d" % i, role, i, index=i, rank=i, together=False))
            else:
                parties.append(spec("worker %d" % i, role, i, index=i, rank=i))
    else:
        for i in range(servers):
            kw = {}
            if i == victim and kind == "missing":
                continue
            if i == victim and kind == "failing":
                kw["fail"] = True
            if i == victim and kind == "late":
                kw["ready_delay"] = servers * T + 2.0
            parties.append(spec("server %d" % i, "server", i, index=i, **kw))
        for i in range(clients):
            role, kw = "client", {}
            if i == 0 and kind in ("crash", "fork", "threads", "badclient", "stalerank"):
                role = kind
                kw["fail_client"] = kind == "badclient"
            parties.append(spec("client %d" % i, role, servers + i, rank=i, **kw))
    if kind in ("stale", "stalerank"):
        open(os.path.join(sync, "snark_%d.client" % (0 if kind == "stalerank" else 17)), "w").close()
    cfg["parties"] = [{x: p[x] for x in ("name", "role", "start_delay", "ready_delay", "pause", "hold", "stop_delay", "again")} for p in parties]
    ctx.at({"op": "synchronize " + kind, "cfg": cfg})
    order = list(parties)
    r.shuffle(order)
    procs = []
    for p in order:
        q = mp.get_context("fork").Process(target=entry, args=(Party(p),))
        q.start()
        procs.append((p, q))
    try:
        watch(ctx, cfg, sync, mon, procs, servers)
        judge(ctx, cfg, sync, mon, procs, parties)
    finally:
        pids = []
        for name in glob.glob(os.path.join(mon, "ready_*")):
            with open(name) as f:
                pids.append(int(f.read()))
        for _, q in procs:
            if q.is_alive():
                q.kill()
        for pid in pids:
            if alive(pid):
                os.kill(pid, signal.SIGKILL)
        for _, q in procs:
            q.join()
        shutil.rmtree(base)


def events(mon):
    try:
        with open(os.path.join(mon, "log")) as f:
            return [json.loads(x) for x in f]
    except OSError:
        return []


def watch(ctx, cfg, sync, mon, procs, servers):
    """Follow the folder until all parties end."""
    death = cfg.setdefault("death", {})
    start = time.monotonic()
    rounds = 0
    while True:
        for i in range(servers):
            if os.path.exists(os.path.join(sync, "snark_%d.server" % i)) and not os.path.exists(os.path.join(mon, "ready_%d" % i)):
                ctx.fail("server announced before it is ready", "server %d" % i, cfg)
            if str(i) not in death and os.path.exists(os.path.join(mon, "ready_%d" % i)):
                with open(os.path.join(mon, "ready_%d" % i)) as f:
                    if not alive(int(f.read())):
                        death[str(i)] = time.monotonic()
        if not any(q.is_alive() for _, q in procs):
            break
        elapsed = time.monotonic() - start
        if elapsed > HANG + 10:
            left = [p["name"] for p, q in procs if q.is_alive()]
            if rounds < elapsed / 0.01 / 4:
                raise RuntimeError("machine too slow to judge, %s still running" % left)
            bad = [e for e in events(mon) if e["what"] == "bad"]
            if bad:
                ctx.fail(bad[0]["mech"], bad[0]["text"], cfg)
            errors = [e for e in events(mon) if e["what"] == "error"]
            if errors:
                ctx.fail("%s in %s" % (errors[0]["error"], errors[0]["who"].split()[0]), errors[0]["text"], cfg)
            ctx.fail("parties hang", "%s; files %s; last events %s" % (left, sorted(os.listdir(sync)), [(e["who"], e["what"]) for e in events(mon)[-8:]]), cfg)
        rounds += 1
        time.sleep(0.01)
    for _, q in procs:
        q.join()


def judge(ctx, cfg, sync, mon, procs, parties):
    kind = cfg["kind"]
    log = events(mon)
    death = cfg.pop("death")
    for e in log:
        if e["what"] == "bad":
            ctx.fail(e["mech"], e["text"], cfg)
    for e in log:
        if e["what"] == "error":
            ctx.fail("%s raised in %s" % (e["error"], e["who"].split()[0]), e["text"], cfg)
    created = [e for e in log if e["what"] == "created"]
    timed = [e for e in log if e["what"] == "timed out"]
    by = lambda what: [e for e in log if e["what"] == what]
    if len({e["who"] for e in created}) != len(created):
        ctx.fail("client created twice", str(created), cfg)
    for p, q in procs:
        want = 7 if p["role"] == "raise" else 0
        if q.exitcode != want:
            ctx.fail("party ended with another exit code", "%s: %s" % (p["name"], q.exitcode), cfg)
        if p["role"] == "raise":
            ctx.count("exits_after_errors")
    if kind in ("missing", "failing", "late"):
        for e in created:
            ctx.fail("client created without a server", e["who"], cfg)
        if len(timed) != cfg["clients"]:
            ctx.fail("client without servers ends without an error", "%d of %d" % (len(timed), cfg["clients"]), cfg)
    ready = {e["who"]: e["t"] for e in by("ready")}
    if timed and kind not in ("missing", "failing", "late"):
        # Legitimate only when some server came late.
        for e in timed:
            last = max(ready.values()) if len(ready) == cfg["servers"] else None
            if last is not None and last < e["start"] + e["T"] - max(0.3, e["T"] / 2) and not any(x["t"] < e["t"] for x in by("server released")):
                ctx.fail("client timed out although all servers were announced", "client started at %.2f, last server ready at %.2f, timeout %.2f, raised at %.2f" % (e["start"], last, e["T"], e["t"]), cfg)
    # Servers wait for registered clients, until the timeout.
    if kind == "stale" or (kind == "crash" and created and not timed):
        for e in by("reset begin"):
            i = e["who"].split()[1]
            td = death.get(i)
            if td is not None and td < e["t"] + cfg["timeout"] - 0.05:
                ctx.fail("server stopped while a client is registered", "server %s stopped %.2f s after its shutdown began, timeout %.2f" % (i, td - e["t"], cfg["timeout"]), cfg)
            ctx.count("late_releases")
    if cfg["timeout"] is None or cfg["timeout"] >= 60:
        for e in by("server released"):
            if e["clients"]:
                ctx.fail("server stopped while a client is registered", "%s: %d clients" % (e["who"], e["clients"]), cfg)
    # Every party that was released has left no file and no process.
    allowed = set()
    if kind in ("stale",):
        allowed = {"snark_17.client"}
    elif kind in ("crash", "stalerank"):
        allowed = {"snark_0.client"}
    elif kind == "raise":
        allowed = {"snark_0.client", "snark_0.server"}
    left = set(os.listdir(sync)) - allowed
    if left:
        ctx.fail("files left after shutdown", str(sorted(left)), cfg)
    for _ in range(400):
        running = []
        for name in glob.glob(os.path.join(mon, "ready_*")):
            with open(name) as f:
                if alive(int(f.read())):
                    running.append(name)
        if not running:
            break
        time.sleep(0.05)
    else:
        ctx.fail("server still running after shutdown", str(running), cfg)
    ctx.count("clients_created", len(created))
    ctx.count("announcements", len(ready))
    ctx.count("alive_checks", sum(e["n"] for e in by("alive")))
    ctx.count("timeouts", len(timed))
    ctx.count("second_resets", len(by("second reset")))
    ctx.count("forked", len(by("forked")))
    ctx.case(json.dumps(cfg, sort_keys=True), bool(ready), {"kind": kind, "servers": cfg["servers"], "clients": cfg["clients"], "timeout": cfg["timeout"], "created": len(created), "timed_out": len(timed), "events": len(log)})
