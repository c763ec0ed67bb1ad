"""Runner shared by all checks.

A check is a module in checks/ with
  LEVEL, RULE, ASSUMPTIONS   texts for the evidence file
  BUILDS                     native configurations it needs (names from build.py)
  NEED                       {counter: minimum}; below it the run decided nothing and ends inconclusive
  plan(tier, seed)           list of jobs (dicts with at least "name"); each runs in a process of its own
  run(job, ctx)              executed in the worker process, reports through ctx
  conclude(agg)              optional, executed in the parent on the merged results

A worker reports events, never verdicts about the run as a whole. The parent merges the reports, matches
violations against the known findings, writes the evidence file and decides the exit code.
"""
import contextlib
import hashlib
import importlib
import json
import os
import random
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time
import traceback

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
KNOWN = os.path.join(VERIF, "known_findings.txt")
SCRATCH = os.path.join(VERIF, ".build", "scratch")
REPLAY = os.path.join(VERIF, ".replay")

EXIT_HELD, EXIT_VIOLATED, EXIT_ERROR, EXIT_INCONCLUSIVE = 0, 1, 2, 3
# Exit status a sanitizer runtime uses, so that it cannot be mistaken for an ordinary failure.
SANITIZER_EXIT = 77
MAX_VIOLATIONS = 40
_LIBS = {}


def derive(seed, *parts):
    """A stable sub-seed: every random choice of a run comes from here."""
    text = "%d|%s" % (seed, "|".join(str(p) for p in parts))
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big") >> 1


def rng(seed, *parts):
    return random.Random(derive(seed, *parts))


def jsonable(x, depth=0):
    if depth > 8:
        return str(x)[:200]
    if isinstance(x, (str, bool, int)) or x is None:
        return x if not isinstance(x, str) else x[:2000]
    if isinstance(x, float):
        return x
    if isinstance(x, bytes):
        return x[:200].hex()
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:200]}
    if isinstance(x, (set, frozenset)):
        x = sorted(x, key=str)
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:200]]
    if hasattr(x, "tolist"):
        return jsonable(x.tolist(), depth + 1)
    return str(x)[:500]


class Violation(Exception):
    """Raised by Ctx.fail after the report was made, to leave the current case."""


class Ctx:
    """What a worker uses to report."""

    def __init__(self, prop, job, seed, tier, out):
        self.prop, self.job, self.seed, self.tier = prop, job, seed, tier
        self.name = job["name"]
        self.dir = out
        self.counters = {}
        self._lock = threading.RLock()
        self.keys = set()
        self.samples = []
        self.stats = {}
        self._log = open(os.path.join(out, "events.jsonl"), "a")
        self._journal = os.open(os.path.join(out, "journal"), os.O_CREAT | os.O_RDWR, 0o600)
        self._seq = 0
        self.last = None
        self._nviol = {}
        self.scratch = os.path.join(out, "scratch")
        os.makedirs(self.scratch, exist_ok=True)

    def rng(self, *parts):
        return rng(self.seed, self.prop, *parts)

    def at(self, what):
        """Note what is about to be executed; this is what remains if the process dies or stalls."""
        what = jsonable(what)
        with self._lock:
            self._seq += 1
            self.last = what
            text = json.dumps({"seq": self._seq, "at": what})[:60000]
            os.ftruncate(self._journal, 0)
            os.pwrite(self._journal, text.encode(), 0)

    def count(self, name, n=1):
        with self._lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def case(self, key, nontrivial=True, sample=None):
        """One evaluated case. key identifies it among the others of the run."""
        self.count("evaluations")
        if nontrivial:
            self.keys.add(hashlib.sha256(repr(key).encode()).hexdigest()[:16])
            if sample is not None and len(self.samples) < 3:
                self.samples.append(jsonable(sample))

    def stat(self, name, value):
        """Data for conclude() in the parent; the values of one name are collected in a list."""
        self.stats.setdefault(name, []).append(jsonable(value))

    def violation(self, mech, what, case=None):
        """mech names the failing operation and the way it failed; it is what known findings refer to."""
        with self._lock:
            n = self._nviol.get(mech, 0)
            self._nviol[mech] = n + 1
            self.count("violations")
            if n < 5:
                self._log.write(json.dumps({"mech": mech, "what": str(what)[:3000], "case": jsonable(case), "job": self.name}) + "\n")
                self._log.flush()

    def fail(self, mech, what, case=None):
        self.violation(mech, what, case)
        raise Violation(mech)

    def expect(self, cond, mech, what, case=None):
        if not cond:
            self.violation(mech, what() if callable(what) else what, case)
        return bool(cond)

    def call(self, op, fn, *args, case=None, **kw):
        """Execute a call that has to succeed; an exception is a violation named after the operation."""
        self.at({"op": op, "case": case})
        try:
            return fn(*args, **kw)
        except Violation:
            raise
        except Exception as e:
            self.fail("%s raised %s" % (op, type(e).__name__), "%s\n%s" % (e, "".join(traceback.format_exc()[-1500:])), case)

    @contextlib.contextmanager
    def trial(self):
        """A case ends at its first violation that was raised with fail."""
        try:
            yield
        except Violation:
            pass

    def finish(self):
        with open(os.path.join(self.dir, "done.json.tmp"), "w") as f:
            json.dump({"counters": self.counters, "keys": sorted(self.keys), "samples": self.samples, "stats": self.stats}, f)
        os.rename(os.path.join(self.dir, "done.json.tmp"), os.path.join(self.dir, "done.json"))


def load(prop):
    sys.path[:0] = [LIB, os.path.join(VERIF, "checks")]
    return importlib.import_module(prop.lower())


def misshapen(e, scratch):
    """An error from taking apart a result: missing files and fields, wrong sizes and kinds of values."""
    if isinstance(e, FileNotFoundError):
        return str(e.filename).startswith(scratch)
    if isinstance(e, AttributeError):
        return e.name is not None and e.obj is None
    return type(e).__name__ == "FormatError" or isinstance(e, (ValueError, IndexError, KeyError, TypeError, ZeroDivisionError, OverflowError, EOFError, struct.error))


def worker_main(argv):
    prop, out = argv
    with open(os.path.join(out, "job.json")) as f:
        d = json.load(f)
    ctx = Ctx(prop, d["job"], d["seed"], d["tier"], out)
    random.seed(derive(d["seed"], prop, d["job"]["name"], "global"))
    mod = load(prop)
    try:
        mod.run(d["job"], ctx)
    except Violation:
        pass
    except Exception as e:
        # An error that came through the repository's code is its failure to do what it was asked.
        frames = [f.f_code.co_filename for f, _ in traceback.walk_tb(e.__traceback__)]
        op = ctx.last.get("op") if isinstance(ctx.last, dict) else None
        if not any(f.startswith(os.path.join(REPO, "src")) for f in frames):
            if ctx.last is None or not misshapen(e, ctx.scratch):
                raise
            # What was returned or written does not have the form that every user of it expects.
            ctx.violation("%s: unexpected form of the result, %s" % (op or ctx.name, type(e).__name__), "%s\n%s" % (e, traceback.format_exc()[-1500:]), ctx.last)
        else:
            ctx.violation("%s raised %s" % (op or ctx.name, type(e).__name__), "%s\n%s" % (e, traceback.format_exc()[-1500:]), ctx.last)
    ctx.finish()
    sys.stdout.flush()
    sys.stderr.flush()
    # Daemon threads of the code under test must not decide how the process ends.
    os._exit(0)


def worker_env(config):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("SNARK_", "OMPI_", "HADOOP_", "DEEPGNN")) or k in ("LD_PRELOAD", "PYTHONPATH", "CLASSPATH", "WORLD_SIZE", "RANK", "LOCAL_RANK", "LOCAL_WORLD_SIZE"):
            del env[k]
    env["PYTHONPATH"] = os.path.join(REPO, "src/python")
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["VERIF_QUIET_LOG"] = "1"
    env["OPENBLAS_NUM_THREADS"] = env["OMP_NUM_THREADS"] = "1"
    env["LC_ALL"] = "C.UTF-8"
    env["TZ"] = "UTC"
    if config:
        import build

        if config not in _LIBS:
            _LIBS[config] = build.build(config)
        env["SNARK_LIB_PATH"] = _LIBS[config]
        if config == "asan":
            env["LD_PRELOAD"] = build.runtime("libasan.so") + " " + build.runtime("libstdc++.so.6")
            env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=%d:abort_on_error=0:detect_odr_violation=0:allocator_may_return_null=1:malloc_context_size=8:handle_segv=1" % SANITIZER_EXIT
            env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=%d" % SANITIZER_EXIT
            env["PYTHONMALLOC"] = "malloc"
        if config == "tsan":
            env["LD_PRELOAD"] = build.runtime("libtsan.so") + " " + build.runtime("libstdc++.so.6")
            env["TSAN_OPTIONS"] = "exitcode=%d:halt_on_error=1:report_signal_unsafe=0:history_size=5:suppressions=%s" % (SANITIZER_EXIT, os.path.join(LIB, "tsan.supp"))
    return env


def tree_cpu(pid):
    """CPU ticks used by a process and its descendants, and whether any of their threads can run."""
    todo, ticks, active = [pid], 0, False
    while todo:
        p = todo.pop()
        try:
            for t in os.listdir("/proc/%d/task" % p):
                with open("/proc/%d/task/%s/stat" % (p, t)) as f:
                    fields = f.read().rsplit(")", 1)[1].split()
                if fields[0] in "RD":
                    active = True
                ticks += int(fields[11]) + int(fields[12])
                try:
                    with open("/proc/%d/task/%s/children" % (p, t)) as f:
                        todo += [int(c) for c in f.read().split()]
                except OSError:
                    pass
            with open("/proc/%d/stat" % p) as f:
                fields = f.read().rsplit(")", 1)[1].split()
            ticks += int(fields[13]) + int(fields[14])
        except (OSError, IndexError):
            continue
    return ticks, active


class Worker:
    """One running job, watched for progress."""

    # A stall is judged by samples, not by elapsed time: every sample has to show a tree of processes that used no
    # CPU and has no runnable thread, while the journal stays where it was.
    QUIET_SAMPLES = 60
    PERIOD = 0.5
    SPIN_TICKS = 150 * os.sysconf("SC_CLK_TCK")

    def __init__(self, prop, job, seed, tier, base, index):
        self.job = job
        self.dir = os.path.join(base, "w%d" % index)
        os.makedirs(self.dir)
        with open(os.path.join(self.dir, "job.json"), "w") as f:
            json.dump({"job": job, "seed": seed, "tier": tier}, f)
        env = worker_env(job.get("config"))
        env.update(job.get("env", {}))
        env["TMPDIR"] = os.path.join(self.dir, "tmp")
        os.makedirs(env["TMPDIR"])
        self.out = open(os.path.join(self.dir, "stdout"), "wb")
        self.proc = subprocess.Popen(
            [PY, "-X", "faulthandler", os.path.join(LIB, "vcommon.py"), "--worker", prop, self.dir],
            env=env,
            stdin=subprocess.DEVNULL,
            stdout=self.out,
            stderr=subprocess.STDOUT,
            start_new_session=True,
            cwd=self.dir,
        )
        self.start = time.monotonic()
        self.timeout = job.get("timeout", 600)
        self.quiet = 0
        self.last = (None, None)
        self.spin_base = None
        self.stall = None

    def journal(self):
        try:
            with open(os.path.join(self.dir, "journal")) as f:
                return json.loads(f.read() or "{}")
        except (OSError, ValueError):
            return {}

    def poll(self):
        """None while running, else a string: exited, stalled or timeout."""
        if self.proc.poll() is not None:
            return "exited"
        if time.monotonic() - self.start > self.timeout:
            self.kill()
            return "timeout"
        ticks, active = tree_cpu(self.proc.pid)
        seq = self.journal().get("seq")
        if seq != self.last[0]:
            self.spin_base = ticks
            self.quiet = 0
        elif ticks != self.last[1] or active:
            self.quiet = 0
        else:
            self.quiet += 1
        self.last = (seq, ticks)
        if seq is not None and self.quiet >= self.job.get("quiet_samples", self.QUIET_SAMPLES):
            self.stall = "quiescent"
        elif seq is not None and self.spin_base is not None and ticks - self.spin_base > self.job.get("spin_ticks", self.SPIN_TICKS):
            self.stall = "spinning"
        if self.stall:
            # Ask for the Python stacks before ending it.
            try:
                os.kill(self.proc.pid, signal.SIGABRT)
                self.proc.wait(10)
            except (OSError, subprocess.TimeoutExpired):
                pass
            self.kill()
            return "stalled"
        return None

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def tail(self, n=6000):
        self.out.close()
        with open(os.path.join(self.dir, "stdout"), "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - 200000))
            return f.read().decode("utf-8", "replace")[-n:]

    def text(self):
        with open(os.path.join(self.dir, "stdout"), "rb") as f:
            return f.read(4000000).decode("utf-8", "replace")


def summarize_sanitizer(text):
    import re

    m = re.search(r"SUMMARY: (\w+Sanitizer: [^\n]*)", text)
    kind = m.group(1) if m else None
    r = re.search(r"([^\s:]+/src/cc/[^\s:]+:\d+):\d+: runtime error: ([^\n]*)", text)
    if r:
        kind = "UndefinedBehavior: %s at %s" % (r.group(2), r.group(1))
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?/src/cc/lib/[^\n]*)", text)
    return kind, frames[:6]


def crash_mech(text, code):
    """Name a crash by what the sanitizer or the signal says and the first frame in the repository."""
    import re

    kind, frames = summarize_sanitizer(text)
    if kind:
        m = re.search(r"(\w+Sanitizer): ([\w-]+)", kind)
        short = m.group(2) if m else "undefined-behavior"
        func = "?"
        if frames:
            f = re.match(r"([\w:~<>,* ]+?)\(", frames[0])
            func = (f.group(1) if f else frames[0].split()[0]).split("::")[-1]
        return "%s in %s" % (short, func), "%s\n%s" % (kind, "\n".join(frames))
    if code is not None and code < 0:
        try:
            name = signal.Signals(-code).name
        except ValueError:
            name = str(-code)
        return "process died with " + name, text[-1500:]
    return None, None


class Agg:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.counters, self.keys, self.samples, self.stats = {}, set(), [], {}
        self.violations, self.errors, self.inconclusive = [], [], []
        self.notes = []

    def violation(self, mech, what, case=None, job="conclude"):
        self.violations.append({"mech": mech, "what": str(what)[:3000], "case": jsonable(case), "job": job})

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n


def collect(agg, w, how):
    name = w.job["name"]
    code = w.proc.returncode
    tail = w.tail()
    ev = os.path.join(w.dir, "events.jsonl")
    if os.path.exists(ev):
        with open(ev) as f:
            for line in f:
                agg.violations.append(json.loads(line))
    done = os.path.join(w.dir, "done.json")
    if os.path.exists(done):
        with open(done) as f:
            d = json.load(f)
        for k, v in d["counters"].items():
            agg.counters[k] = agg.counters.get(k, 0) + v
        agg.keys.update(d["keys"])
        agg.samples += d["samples"]
        for k, v in d["stats"].items():
            agg.stats.setdefault(k, []).extend(v)
    at = w.journal().get("at")
    if how == "stalled":
        agg.count("stalls")
        what = "no progress (%s) while executing %s\n%s" % (w.stall, json.dumps(at)[:1500], tail[-2500:])
        if w.job.get("stall", "violation") == "violation":
            op = at.get("op") if isinstance(at, dict) else None
            agg.violation("stall %s in %s" % (w.stall, op or name), what, at, name)
        else:
            agg.inconclusive.append("job %s: %s" % (name, what))
    elif how == "timeout":
        agg.inconclusive.append("job %s exceeded its time limit while executing %s" % (name, json.dumps(at)[:600]))
    elif code != 0 or not os.path.exists(done):
        text = w.text()
        mech, detail = crash_mech(text, code)
        if mech and at is not None:
            agg.count("crashes")
            op = at.get("op") if isinstance(at, dict) else None
            agg.violation("crash: %s%s" % (mech, " during %s" % op if op else ""), "%s\nwhile executing %s" % (detail, json.dumps(at)[:2000]), at, name)
        else:
            agg.errors.append("job %s ended with %s\n%s" % (name, code, tail))


def known_findings(prop):
    res = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: ") and ("property=%s " % prop) in line:
                    m = line.split("mechanism=", 1)[1]
                    mech, _, what = m.partition(" :: ")
                    res.append((mech.strip(), what.strip()))
    return res


def run_jobs(prop, jobs, seed, tier, agg, parallel, base, fail_fast=True):
    todo = list(enumerate(jobs))
    running = []
    while todo or running:
        while todo and len(running) < parallel:
            i, job = todo.pop(0)
            running.append(Worker(prop, job, seed, tier, base, i))
        time.sleep(0.05)
        now = time.monotonic()
        for w in list(running):
            if w.proc.poll() is None and now - getattr(w, "sampled", 0) < Worker.PERIOD:
                continue
            w.sampled = now
            how = w.poll()
            if how:
                w.kill()
                running.remove(w)
                collect(agg, w, how)
                if "VERIF_KEEP" in os.environ:
                    print("job %s: %s %.1fs" % (w.job["name"], how, now - w.start), file=sys.stderr)
                else:
                    shutil.rmtree(w.dir, ignore_errors=True)
    return agg


def run_check(prop, replay=None):
    sys.path[:0] = [LIB]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = None
    if replay:
        with open(replay) as f:
            r = json.load(f)
        seed, tier, only = r["seed"], r["tier"], r["job"]
    mod = load(prop)
    agg = Agg(prop, seed, tier)
    os.makedirs(SCRATCH, exist_ok=True)
    base = tempfile.mkdtemp(prefix=prop + "-", dir=SCRATCH)
    try:
        import build

        try:
            for c in getattr(mod, "BUILDS", []):
                build.build(c)
            if hasattr(mod, "prepare"):
                mod.prepare()
        except build.BuildError as e:
            print("the native library does not build: %s" % e)
            return EXIT_ERROR
        jobs = mod.plan(tier, seed)
        if only and only != "conclude":
            jobs = [j for j in jobs if j["name"] == only]
        names = [j["name"] for j in jobs]
        assert len(set(names)) == len(names), "job names must be unique"
        run_jobs(prop, jobs, seed, tier, agg, getattr(mod, "PARALLEL", 6), base)
        if hasattr(mod, "conclude"):
            mod.conclude(agg)
    finally:
        if "VERIF_KEEP" in os.environ:
            print("kept", base, file=sys.stderr)
        else:
            shutil.rmtree(base, ignore_errors=True)
    return report(prop, mod, agg, seed, tier, time.time() - t0)


def report(prop, mod, agg, seed, tier, wall):
    known = known_findings(prop)
    fresh, listed = [], {}
    for v in agg.violations:
        hit = [k for k in known if k[0] == v["mech"]]
        if hit:
            listed.setdefault(hit[0], 0)
            listed[hit[0]] += 1
        else:
            fresh.append(v)
    for (mech, what), n in listed.items():
        print("KNOWN-FINDING: property=%s %s (%s, seen %d times)" % (prop, what, mech, n))
    cov = {
        "evaluations": agg.counters.get("evaluations", 0),
        "distinct_nontrivial": len(agg.keys),
        "rule": mod.RULE,
        "samples": agg.samples[:6],
        "monitors": {k: v for k, v in sorted(agg.counters.items()) if k != "evaluations"},
    }
    if agg.notes:
        cov["notes"] = agg.notes[:20]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(path + ".tmp", path)
    if fresh:
        os.makedirs(REPLAY, exist_ok=True)
        seen = {}
        for v in fresh:
            n = seen.get(v["mech"], 0)
            seen[v["mech"]] = n + 1
            if n >= 2 or len(seen) > MAX_VIOLATIONS:
                continue
            ident = hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
            rp = os.path.join(REPLAY, "%s-%s.json" % (prop, ident))
            with open(rp, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, "job": v["job"], "mechanism": v["mech"], "what": v["what"], "case": v["case"], "rerun": "python3 check.py %s --replay %s" % (prop, rp)}, f, indent=1)
            print("[%s] %s\n    %s" % (v["job"], v["mech"], v["what"][:1200].replace("\n", "\n    ")))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return EXIT_VIOLATED
    if agg.errors:
        for e in agg.errors[:5]:
            print("ERROR in the check: %s" % e)
        return EXIT_ERROR
    if agg.inconclusive:
        for e in agg.inconclusive[:5]:
            print("INCONCLUSIVE: %s" % e)
        return EXIT_INCONCLUSIVE
    for k, v in getattr(mod, "NEED", {}).items():
        if agg.counters.get(k, 0) < v:
            print("INCONCLUSIVE: monitor %s saw %d events, needs %d" % (k, agg.counters.get(k, 0), v))
            return EXIT_INCONCLUSIVE
    print("HELD property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], wall))
    return EXIT_HELD


if __name__ == "__main__":
    if sys.argv[1] == "--worker":
        # The same module object for everyone.
        sys.modules["vcommon"] = sys.modules["__main__"]
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            worker_main(sys.argv[2:4])
        except BaseException:
            traceback.print_exc()
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(9)
