"""Parallel uploader of results: what was written arrives once in the storage."""
import collections
import json
import multiprocessing
import os
import random
import shutil
import threading
import time

LEVEL = "exploration"
RULE = "one case is one life of an uploader (write, close, compare files); it is nontrivial when at least two chunks were written, and distinct by settings and written records"
ASSUMPTIONS = [
    "the cloud storage is a stand-in that keeps files of a scratch folder, with random pauses and, in some cases, failing transfers",
    "an uploader is used from one thread",
    "after a failing transfer records may be missing, but none is repeated or changed, failed writes are reported and nothing hangs",
    "periodic health checks of the code run 20 times faster",
]
NEED = {"lives": 60, "chunks": 1500, "files": 150, "limited files": 8, "slow storage": 20, "full queues": 3, "empty writes": 10, "after close": 40, "failing storage": 10, "reported": 1, "many threads": 20}
PARALLEL = 8


def plan(tier, seed):
    big = tier == "thorough"
    jobs = [{"name": "u%d" % i, "cases": 70 if big else 12, "timeout": 800} for i in range(6)]
    jobs += [{"name": "f%d" % i, "cases": 30 if big else 9, "failing": True, "timeout": 800} for i in range(5)]
    jobs += [{"name": "slow%d" % i, "cases": 6 if big else 2, "slow": True, "timeout": 800} for i in range(2)]
    return jobs


class Store:
    """Stand-in for the file system of a data lake. Forked into every process of the uploader."""

    folder, log, delay, seed, fail, gate, only = None, None, 0.0, 0, 0.0, None, ""

    def __init__(self, token=None, store_name=None, **kwargs):
        if token != "token" or store_name != "store":
            raise ValueError("other credentials")

    def open(self, path, mode="rb", **kwargs):
        return StoredFile(path, mode)


class StoredFile:
    def __init__(self, path, mode):
        if mode not in ("wb", "ab"):
            raise ValueError(mode)
        self.path = path
        self.r = random.Random("%s %s" % (Store.seed, path))
        if self.r.random() < Store.fail and Store.only in path:
            self.note("failed")
            raise OSError("injected failure of opening")
        real = os.path.join(Store.folder, path.lstrip("/"))
        os.makedirs(os.path.dirname(real), exist_ok=True)
        # A second file of the same name would replace the first one.
        if os.path.exists(real) and mode == "wb":
            self.note("replaced")
        self.f = open(real, mode)
        self.chunks = 0
        self.note("open")

    def note(self, what):
        fd = os.open(Store.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
        os.write(fd, (json.dumps([what, self.path, getattr(self, "chunks", 0)]) + "\n").encode())
        os.close(fd)

    def write(self, data):
        if self.f is None:
            raise ValueError("closed")
        if Store.delay:
            time.sleep(self.r.random() * Store.delay)
        if self.r.random() < Store.fail and Store.only in self.path:
            self.note("failed")
            raise OSError("injected failure of writing")
        if Store.gate is not None:
            Store.gate.wait()
        # Data is stored on close only, as in a buffered store.
        self.f.write(bytes(data))
        self.chunks += 1
        return len(data)

    def flush(self, *args, **kwargs):
        pass

    def close(self):
        if self.f is not None:
            self.f.close()
            self.f = None
            self.note("close")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        # Not closed: what was buffered is gone.
        if getattr(self, "f", None) is not None:
            self.f.truncate(0)
            self.f.close()
            self.f = None


SITE = """<configuration>
<property><name>fs.adl.oauth2.client.id</name><value>id</value></property>
<property><name>fs.adl.oauth2.credential</name><value>secret</value></property>
<property><name>fs.adl.oauth2.refresh.url</name><value>https://x/12345678-1234-1234-8234-123456789abc/oauth2</value></property>
</configuration>"""


class Clock:
    def sleep(self, seconds):
        time.sleep(seconds / 20)

    def __getattr__(self, name):
        return getattr(time, name)


def setup(ctx):
    home = os.path.join(ctx.scratch, "home")
    os.makedirs(os.path.join(home, "etc/hadoop"))
    with open(os.path.join(home, "etc/hadoop/core-site.xml"), "w") as f:
        f.write(SITE)
    os.environ["HADOOP_HOME"] = home
    from azure.datalake.store import core, lib

    def auth(tenant_id=None, client_secret=None, client_id=None, **kwargs):
        if (tenant_id, client_secret, client_id) != ("12345678-1234-1234-8234-123456789abc", "secret", "id"):
            raise ValueError("other credentials")
        return "token"

    core.AzureDLFileSystem = Store
    lib.auth = auth
    from deepgnn.graph_engine import adl_uploader

    if hasattr(adl_uploader, "time"):
        adl_uploader.time = Clock()
    return adl_uploader


def run(job, ctx):
    module = setup(ctx)
    r = ctx.rng(job["name"])
    for k in range(job["cases"]):
        with ctx.trial():
            life(ctx, r, module, k, job)


def text(r, i, empty=True):
    if empty and r.random() < 0.1:
        return ""
    body = "".join(r.choice("abc\t ,é漢\U0001f600") for _ in range(r.choice([0, 3, 20, 400])))
    return "%d|%s" % (i, body)


def life(ctx, r, module, k, job):
    folder = os.path.join(ctx.scratch, "s%d" % k)
    os.makedirs(folder)
    Store.folder, Store.log, Store.seed = folder, os.path.join(ctx.scratch, "log%d" % k), r.randrange(10**9)
    Store.delay = r.choice([0, 0.002, 0.03])
    Store.fail = r.choice([0.02, 0.3, 1.0]) if job.get("failing") else 0.0
    Store.gate, Store.only = None, ""
    processes, threads = r.choice([1, 2, 3]), r.choice([1, 2, 5])
    limit = r.choice([0, 0, 1, 2, 7])
    queue_size = r.choice([1, 4, 100])
    lines = r.choice([1, 2, 3, 50])
    if job.get("slow"):
        # The storage is blocked for longer than any short timeout: a full queue must not lose anything.
        Store.gate = multiprocessing.Event()
        queue_size, processes, threads = processes, processes, 1
        Store.delay = 0
    partial = job.get("failing") and r.random() < 0.3
    if partial:
        # One process fails while another one has a lot to upload.
        Store.only, Store.fail, Store.delay = "part_0_", 1.0, 0.5
        queue_size, processes, threads = 200, 2, 1
    cfg = {"processes": processes, "threads": threads, "chunks per file": limit, "queue": queue_size, "lines": lines, "pause": Store.delay, "failing": Store.fail, "partial": bool(partial)}
    ctx.at({"op": "create", "cfg": cfg})
    w = ctx.call("create", module.AdlDataWriter, "store", "/out/part", limit, processes, threads, queue_size, lines, case=cfg)
    want = collections.Counter()
    number, queued, reported = 0, 0, 0
    n = r.choice([0, 1, 3, 10, 40])
    if job.get("slow"):
        n = 3
        timer = threading.Timer(2.5, Store.gate.set)
        timer.start()
    if job.get("failing"):
        n = 130 if partial else 60
    empty = 0
    for _ in range(n):
        if job.get("failing") and r.random() < (0.8 if partial else 0.3):
            time.sleep(0.05)
        if r.random() < 0.4 and not job.get("slow"):
            i, number = number, number + 1
            body = text(r, i) if r.random() < 0.8 else "%d\nx" % i
            if body == "":
                empty += 1
                ctx.count("empty writes")
            else:
                body += "\n"
            ctx.at({"op": "write", "cfg": cfg, "n": number})
            try:
                res = w.write(body)
            except Exception as e:
                if not job.get("failing"):
                    ctx.fail("write raised %s" % type(e).__name__, repr(e), cfg)
                reported += 1
                continue
            if res is False:
                if not job.get("failing"):
                    ctx.fail("write refused", body[:40], cfg)
                reported += 1
                continue
            if body:
                want[body.encode()] += 1
                queued += 1
        else:
            m = r.choice([0, 1, 2, lines, lines + 1, 3 * lines, 7])
            if job.get("slow"):
                m = 12 * lines
            rows = []
            for i in range(m):
                # Every chunk begins with a number of its own.
                rows.append(text(r, number, i % lines > 0) if r.random() < 0.9 else number)
                number += 1
            given = r.choice([list, tuple])(rows)
            before = list(given)
            ctx.at({"op": "writelines", "cfg": cfg, "n": number})
            try:
                res = w.writelines(given)
            except Exception as e:
                if not job.get("failing"):
                    ctx.fail("writelines raised %s" % type(e).__name__, repr(e), cfg)
                res = False
            if list(given) != before:
                ctx.fail("given lines were changed", "", cfg)
            if res is False:
                if not job.get("failing"):
                    ctx.fail("writelines refused", "%d lines" % m, cfg)
                reported += 1
            for i in range(0, m, lines):
                chunk = "".join("%s\n" % x for x in rows[i : i + lines])
                want[chunk.encode()] += 1
                queued += 1
    if partial:
        ctx.count("partial failures")
        time.sleep(r.random())
    ctx.at({"op": "close", "cfg": cfg})
    if r.random() < 0.3:
        with w:
            pass
    else:
        ctx.call("close", w.close, case=cfg)
    running = multiprocessing.active_children()
    if running:
        for p in running:
            p.join()
        ctx.fail("uploading goes on after close", "%d processes" % len(running), cfg)
    stored = {}
    for top, _, files in os.walk(folder):
        for f in files:
            path = os.path.join(top, f)
            with open(path, "rb") as s:
                stored[os.path.relpath(path, folder)] = s.read()
    notes = []
    if os.path.exists(Store.log):
        with open(Store.log) as f:
            notes = [json.loads(line) for line in f]
    ctx.at({"op": "judge", "cfg": cfg})
    check(ctx, cfg, want, stored, notes, limit, job)
    # After close nothing is accepted silently.
    refused = True
    ctx.at({"op": "write after close", "cfg": cfg})
    for call, arg in ((w.write, "late\n"), (w.writelines, ["late"])):
        try:
            if call(arg) is not False:
                refused = False
        except Exception:
            pass
    if not refused:
        ctx.fail("a write after close is not reported", "", cfg)
    ctx.count("after close")
    ctx.call("close again", w.close, case=cfg)
    shutil.rmtree(folder)
    ctx.count("lives")
    ctx.count("chunks", queued)
    ctx.count("files", len(stored))
    if limit and not job.get("failing"):
        ctx.count("limited files")
    if Store.delay:
        ctx.count("slow storage")
    if job.get("slow") or queue_size <= processes and queued > 4 * processes:
        ctx.count("full queues")
    if threads * processes > 3:
        ctx.count("many threads")
    if job.get("failing") and any(x[0] == "failed" for x in notes):
        ctx.count("failing storage")
        if reported:
            ctx.count("reported")
    ctx.case(json.dumps([ctx.name, k, cfg]), queued > 1, dict(cfg, chunks=queued, files=len(stored), reported=reported))


def check(ctx, cfg, want, stored, notes, limit, job):
    failing = job.get("failing")
    if any(x[0] == "replaced" for x in notes):
        ctx.fail("a file was replaced by another one", str([x for x in notes if x[0] == "replaced"][:3]), cfg)
    for what, path, chunks in notes:
        if what == "close" and limit and chunks > limit:
            ctx.fail("a file is larger than the limit", "%s has %d chunks" % (path, chunks), cfg)
    opened = sum(1 for x in notes if x[0] == "open")
    closed = sum(1 for x in notes if x[0] == "close")
    if not failing and opened != closed:
        ctx.fail("files were not closed", "%d of %d" % (opened - closed, opened), cfg)
    # Split files in the chunks that were written: every chunk begins with a number of its own.
    left = collections.Counter(want)
    rest = []
    heads = collections.defaultdict(list)
    for c in want:
        heads[c[:1]].append(c)
    for path, data in sorted(stored.items()):
        at = 0
        while at < len(data):
            options = [c for c in heads[data[at : at + 1]] if left[c] > 0 and data.startswith(c, at)]
            if not options:
                rest.append((path, data[at : at + 60]))
                break
            c = max(options, key=len)
            left[c] -= 1
            at += len(c)
    missing = +left
    if rest:
        ctx.fail("stored data is not what was written", "%s; missing %s" % (rest[:2], [x[:40] for x in list(missing)[:3]]), cfg)
    if missing and not failing:
        ctx.fail("written data is missing", "%d of %d chunks, like %r" % (sum(missing.values()), sum(want.values()), list(missing)[0][:60]), cfg)
