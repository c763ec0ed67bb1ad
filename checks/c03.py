"""Text readers: every line once, in order, whatever the blocks, threads and read timing."""
import os
import threading

import fakelake
import slowfs

LEVEL = "exploration"
RULE = "one case is one iteration over generated files with one reader configuration; it is nontrivial when there is at least one line, and distinct by content, configuration and delays"
ASSUMPTIONS = [
    "files of at most a few kilobytes with block sizes from 2 bytes up, so that every position of a line end relative to a block edge occurs",
    "line ends are LF or CR LF; empty lines may be dropped or kept",
    "a read that fails makes the iteration raise",
]
NEED = {"lines_compared": 5000, "lakes": 100, "splits of a lake": 10, "blocks_split": 200, "delayed_reads": 200, "inversions": 20, "faults_reported": 10}

ALPHABET = ["a", "b", "1", " ", "\t", ",", "é", "日", "𝄞", " ", "\x85", "\x0b", "\x0c", "\x1c", "\x1e", " ", '"', "\\", "{", "\x00"]


def plan(tier, seed):
    n = 6 if tier == "quick" else 16
    k = 150 if tier == "quick" else 400
    return [{"name": "r%d" % i, "cases": k} for i in range(n)] + [{"name": "fault%d" % i, "cases": 40 if tier == "quick" else 150, "fault": True} for i in range(2)]


def rand_line(r, style):
    n = r.choice([1, 1, 2, 3, 7, 20, 60, 200])
    if style == "ascii":
        return "".join(r.choice("abcdefgh0123456789,\t") for _ in range(n))
    return "".join(r.choice(ALPHABET) for _ in range(n))


def rand_file(r):
    """Lines and the bytes of a file holding them."""
    style = r.choice(["ascii", "any"])
    lines = [rand_line(r, style) for _ in range(r.choice([0, 1, 2, 3, 5, 10, 40]))]
    eol = r.choice(["\n", "\n", "\n", "\r\n"])
    text, want = "", []
    for i, line in enumerate(lines):
        while r.random() < 0.05:
            text += eol
        text += line
        want.append(line)
        if i + 1 < len(lines) or r.random() < 0.7:
            text += eol
    return want, text.encode("utf-8")


def flat(batches):
    return [x for b in batches for x in b if x != ""]


def run(job, ctx):
    fakelake.install()
    from deepgnn.graph_engine import TextFileIterator, TextFileSplitIterator

    control = slowfs.register()
    r = ctx.rng(job["name"])
    for k in range(job["cases"]):
        folder = os.path.join(ctx.scratch, "c%d" % k)
        os.makedirs(folder)
        nfiles = r.choice([1, 1, 2, 3, 6])
        files = []
        for i in range(nfiles):
            want, data = rand_file(r)
            with open(os.path.join(folder, "part_%02d.txt" % i), "wb") as f:
                f.write(data)
            files.append((want, data))
        block = r.choice([2, 3, 5, 8, 13, 64, 500, 100000])
        size = sum(len(d) for _, d in files)
        if size / block > 400:
            block = size // 300 + 1
        cfg = {
            "files": nfiles,
            "bytes": size,
            "block": block,
            "threads": r.choice([1, 1, 2, 3, 5, 10]),
            "queue": r.choice([1, 2, 3, 30]),
            "batch": r.choice([1, 2, 3, 7, 512]),
            "workers": r.randint(1, nfiles) if r.random() < 0.5 else 1,
            "epochs": r.choice([1, 1, 1, 2, 3]),
            "drop_last": r.random() < 0.15,
            "shuffle": r.random() < 0.1,
            "slow": r.choice([0, 0, 0.001]),
            "lake": r.choice([None, None, None, "text", "file", "home"]),
        }
        if cfg["lake"]:
            lake(ctx, r, folder, cfg, k)
        if cfg["slow"] and size / block * cfg["threads"] > 200:
            cfg["slow"] = 0
        if job.get("fault"):
            with ctx.trial():
                fault_case(ctx, r, TextFileIterator, control, folder, files, cfg)
        elif nfiles == 1 and r.random() < 0.4:
            with ctx.trial():
                split_case(ctx, r, TextFileSplitIterator, folder, files[0], cfg, k)
        else:
            with ctx.trial():
                full_case(ctx, r, TextFileIterator, control, folder, files, cfg, k)
        for f in os.listdir(folder):
            os.remove(os.path.join(folder, f))
        os.rmdir(folder)


def lake(ctx, r, folder, cfg, k):
    """The files are in a store of the data lake, the credentials in a text, a file or the configuration of the machine."""
    text = fakelake.create(r, "store", folder)
    home = os.path.join(ctx.scratch, "home%d" % k)
    os.makedirs(os.path.join(home, "etc/hadoop"))
    os.environ["HADOOP_HOME"] = home
    path = os.path.join(home, "etc/hadoop/core-site.xml")
    if cfg["lake"] != "home":
        # Credentials that open nothing.
        with open(path, "w") as f:
            f.write(fakelake.create(r, "other", folder))
    if cfg["lake"] == "text":
        cfg["store"] = {"store_name": "store", "adl_config": text}
    else:
        path = path if cfg["lake"] == "home" else os.path.join(home, "credentials.xml")
        with open(path, "w") as f:
            f.write(text)
        cfg["store"] = {"store_name": "store"} if cfg["lake"] == "home" else {"store_name": "store", "adl_config": path}
    ctx.count("lakes")


def make(cls, folder, cfg, worker, single):
    path = os.path.join(folder, "part_00.txt") if single else folder
    if cfg["lake"]:
        where = dict(cfg["store"], filename="/part_00.txt" if single else "/part_*.txt")
    else:
        where = {"filename": "vslow://" + path, "store_name": None}
    return cls(
        **where,
        batch_size=cfg["batch"],
        epochs=cfg["epochs"],
        read_block_in_M=cfg["block"] / 1000000,
        buffer_queue_size=cfg["queue"],
        thread_count=cfg["threads"],
        worker_index=worker,
        num_workers=cfg["workers"],
        shuffle=cfg["shuffle"],
        drop_last=cfg["drop_last"],
    )


def read(ctx, it, cfg, again):
    """Batches of one iteration; with again, a part of an earlier iteration is consumed first."""
    ctx.at({"op": "iterate", "cfg": cfg})
    if again:
        x = iter(it)
        for _ in range(again):
            try:
                next(x)
            except StopIteration:
                break
    res = [b for b in it]
    try:
        next(it)
        ctx.fail("iterator continues after its end", "", cfg)
    except StopIteration:
        pass
    return res


def full_case(ctx, r, cls, control, folder, files, cfg, k):
    single = len(files) == 1 and r.random() < 0.5
    control.reset(seed=r.randrange(2**31), max_delay=cfg["slow"])
    again = r.choice([0, 0, 0, 1, 3, 1000])
    got_all = []
    for w in range(cfg["workers"]):
        mine = [files[i][0] for i in range(w, len(files), cfg["workers"])]
        it = ctx.call("create", make, cls, folder, cfg, w, single, case=cfg)
        try:
            batches = ctx.call("iterate", read, ctx, it, cfg, again, case=cfg)
        finally:
            it.join()
        ctx.count("lines_compared", sum(len(b) for b in batches))
        for b in batches[:-1]:
            if len(b) != cfg["batch"]:
                ctx.fail("batch of the wrong size", "batch of %d lines, asked for %d" % (len(b), cfg["batch"]), cfg)
        if batches and (len(batches[-1]) > cfg["batch"] or len(batches[-1]) == 0 or (cfg["drop_last"] and len(batches[-1]) != cfg["batch"])):
            ctx.fail("last batch of the wrong size", "%d lines of %d" % (len(batches[-1]), cfg["batch"]), cfg)
        got = flat(batches)
        got_all += got
        if cfg["shuffle"]:
            # The order of files is free, inside a file it is not.
            want = [line for f in mine for line in f] * cfg["epochs"]
            if cfg["drop_last"]:
                ok = not multiset_minus(got, want) and len(want) - len(got) < cfg["batch"]
            else:
                ok = sorted(got) == sorted(want)
            if not ok:
                ctx.fail("lines lost or repeated", "missing %s, extra %s" % (multiset_minus(want, got)[:3], multiset_minus(got, want)[:3]), cfg)
        else:
            want = [line for f in mine for line in f] * cfg["epochs"]
            if cfg["drop_last"]:
                # What is dropped is the incomplete last batch, in which empty lines may count.
                if got != want[: len(got)] or len(want) - len(got) >= cfg["batch"]:
                    ctx.fail("lines lost, repeated or out of order", "%d of %d lines with the last batch dropped" % (len(got), len(want)), cfg)
            elif got != want:
                i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                ctx.fail("lines lost, repeated or out of order", "worker %d: %d lines for %d; first difference at %d: %r for %r" % (w, len(got), len(want), i, got[i : i + 2], want[i : i + 2]), cfg)
    ctx.count("blocks_split", cfg["bytes"] // max(1, cfg["block"]))
    ctx.count("delayed_reads", control.delays)
    ctx.count("inversions", control.inversions())
    ctx.case((ctx.name, k), cfg["bytes"] > 0, cfg)


def multiset_minus(a, b):
    from collections import Counter

    return list((Counter(a) - Counter(b)).elements())


def split_case(ctx, r, cls, folder, file, cfg, k):
    """Ranges cut at line ends, one reader for each."""
    want, data = file
    ends = [i + 1 for i, c in enumerate(data) if c == 10]
    cuts = sorted({0, len(data)} | set(r.sample(ends, min(len(ends), r.randint(0, 4)))))
    if len(data) == 0:
        cuts = [0, 0]
    got, again = [], []
    where = {"filename": os.path.join(folder, "part_00.txt"), "store_name": None}
    if cfg["lake"]:
        where = dict(cfg["store"], filename="/part_00.txt")
        ctx.count("splits of a lake")
    for a, b in zip(cuts, cuts[1:]):
        length = -1 if b == len(data) and r.random() < 0.3 else b - a
        it = ctx.call(
            "create split",
            cls,
            **where,
            batch_size=cfg["batch"],
            read_block_in_M=cfg["block"] / 1000000,
            buffer_queue_size=cfg["queue"],
            thread_count=cfg["threads"],
            worker_offset=a,
            total_read_length=length,
            case=cfg,
        )
        try:
            got += flat(ctx.call("iterate split", collect, it, case=cfg))
            again += flat(ctx.call("iterate split again", collect, it, case=cfg))
        finally:
            it.join()
    ctx.count("lines_compared", len(got))
    ctx.count("ranges", len(cuts) - 1)
    ctx.case((ctx.name, "split", k), bool(want), {"cuts": cuts, **cfg})
    if got != want:
        ctx.fail("split readers lose, repeat or reorder lines", "ranges %s: %r for %r" % (cuts, got[:6], want[:6]), cfg)
    if again != want:
        ctx.fail("split readers differ on the second iteration", "ranges %s: %r for %r" % (cuts, again[:6], want[:6]), cfg)


def fault_case(ctx, r, cls, control, folder, files, cfg):
    """One read fails: the lines that did come are a prefix, and the reader says that something went wrong."""
    cfg["epochs"], cfg["drop_last"], cfg["shuffle"], cfg["workers"] = 1, False, False, 1
    want = [line for f, _ in files for line in f]
    at = r.randint(1, max(1, min(40, cfg["bytes"] // cfg["block"] * cfg["threads"])))
    control.reset(seed=r.randrange(2**31), max_delay=cfg["slow"], fail=lambda n: OSError("injected read error") if n == at else None)
    it = ctx.call("create", make, cls, folder, cfg, 0, False, case=cfg)
    got, raised = [], None
    ctx.at({"op": "iterate with a failing read", "cfg": cfg, "fail_at": at})
    try:
        for b in it:
            got += b
    except Exception as e:
        raised = e
    finally:
        it.join()
    got = [x for x in got if x != ""]
    failed = control.failures > 0
    control.reset()
    if failed:
        ctx.count("faults")
        if raised is None and got != want:
            ctx.fail("a failed read shortens the data silently", "%d lines of %d after read %d failed, no exception" % (len(got), len(want), at), cfg)
        if got != want[: len(got)]:
            ctx.fail("a failed read disturbs the lines before it", "%r for %r" % (got[:5], want[:5]), cfg)
        ctx.count("faults_reported")
    elif raised is not None:
        ctx.fail("iterate raised %s" % type(raised).__name__, str(raised), cfg)
    ctx.case((ctx.name, at, str(cfg)), failed)
    if threading.active_count() > 200:
        raise RuntimeError("threads pile up")


def collect(it):
    return [b for b in it]
