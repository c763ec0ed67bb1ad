"""Out-of-tree build of /repo's native engine.

Objects are cached by the hash of everything that goes into them, so a second call on an unchanged tree
does nothing and a change to one source file recompiles only what depends on it.
Usage: build.py CONFIG...   prints the path of each library.
"""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, ".build")
SHIM = os.path.join(VERIF, "shim")
CXX = "g++"

COMMON = ["-std=c++20", "-fPIC", "-pthread", "-w", "-DGLOG_NO_ABBREVIATED_SEVERITIES", "-DSNARK_PLATFORM_LINUX", "-include", os.path.join(SHIM, "include/verif_prelude.h")]
CONFIGS = {
    # The wheels are built with optimisation and without assertions.
    "rel": ["-O2", "-g1", "-DNDEBUG"],
    "asan": [
        "-O1",
        "-g1",
        "-fno-omit-frame-pointer",
        "-fsanitize=address,undefined",
        "-fno-sanitize-recover=undefined",
        # Calls through base classes of objects from uninstrumented libraries.
        "-fno-sanitize=vptr",
        "-D_GLIBCXX_ASSERTIONS",
    ],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DNDEBUG"],
}


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def _read(path):
    with open(path, "rb") as f:
        return f.read()


def _sources():
    root = os.path.join(REPO, "src/cc/lib")
    res = [os.path.join(root, f) for f in sorted(os.listdir(root)) if f.endswith(".cc")]
    for d in ("graph", "distributed"):
        p = os.path.join(root, d)
        res += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(".cc")]
    return res


INCLUDE = re.compile(rb'^\s*#\s*include\s*([<"])([^">]+)[">]', re.M)


class Deps:
    """Transitive closure of includes that can be found in the repository, the shim or generated code."""

    def __init__(self, dirs):
        self.dirs = dirs
        self.cache = {}

    def direct(self, path):
        if path not in self.cache:
            found = []
            for _, name in INCLUDE.findall(_read(path)):
                name = name.decode()
                for d in [os.path.dirname(path)] + self.dirs:
                    cand = os.path.normpath(os.path.join(d, name))
                    if os.path.isfile(cand):
                        found.append(cand)
                        break
            self.cache[path] = found
        return self.cache[path]

    def closure(self, path):
        seen = {path}
        todo = [path]
        while todo:
            for n in self.direct(todo.pop()):
                if n not in seen:
                    seen.add(n)
                    todo.append(n)
        return sorted(seen)


def _generate():
    """Run protoc and the service generator."""
    proto = os.path.join(REPO, "src/cc/lib/distributed/service.proto")
    key = hashlib.sha256(_read(proto) + _read(os.path.join(SHIM, "gen_grpc.py"))).hexdigest()[:20]
    gen = os.path.join(OUT, "gen", key)
    if not os.path.exists(os.path.join(gen, "done")):
        tmp = gen + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        _run(["protoc", "-I", REPO, "--cpp_out=" + tmp, "-o", os.path.join(tmp, "desc"), proto])
        _run(
            [
                "/opt/venv/bin/python",
                os.path.join(SHIM, "gen_grpc.py"),
                os.path.join(tmp, "desc"),
                "src/cc/lib/distributed/service.pb.h",
                os.path.join(tmp, "src/cc/lib/distributed/service.grpc.pb.h"),
            ]
        )
        # Iterators of repeated fields are plain pointers in the protobuf version upstream builds with; the one
        # installed here wraps them in a class that lacks the tag std::span asks for.
        header = _read("/usr/include/google/protobuf/repeated_field.h").decode()
        tag = "class RepeatedIterator {\n public:\n"
        if "iterator_concept" not in header and tag in header:
            header = header.replace(tag, tag + "  using iterator_concept = std::contiguous_iterator_tag;\n")
            os.makedirs(os.path.join(tmp, "google/protobuf"))
            with open(os.path.join(tmp, "google/protobuf/repeated_field.h"), "w") as f:
                f.write(header)
        open(os.path.join(tmp, "done"), "w").close()
        shutil.rmtree(gen, ignore_errors=True)
        os.rename(tmp, gen)
    return gen


def build(config, extra_main=None):
    """Build libwrapper.so (or, with extra_main, an executable with that main file); return its path."""
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    with open(os.path.join(OUT, "lock." + config), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(config, extra_main)


def _build(config, extra_main):
    gen = _generate()
    flags = COMMON + CONFIGS[config]
    dirs = [gen, os.path.join(SHIM, "include"), REPO, os.path.join(REPO, "src/cc/lib")]
    inc = []
    for d in dirs:
        inc += ["-I", d]
    deps = Deps(dirs)
    files = _sources() + [os.path.join(gen, "src/cc/lib/distributed/service.pb.cc"), os.path.join(SHIM, "fake_grpc.cc")]
    if extra_main:
        files += extra_main if isinstance(extra_main, list) else [extra_main]
    ident = hashlib.sha256((" ".join(flags) + CXX).encode()).hexdigest()

    def compile_one(src):
        h = hashlib.sha256(ident.encode())
        for d in deps.closure(src):
            # Generated and shim files are identified by content only.
            name = d
            for r in dirs + [VERIF]:
                if d.startswith(r + "/"):
                    name = d[len(r):]
                    break
            h.update(name.encode() + b"\0" + _read(d) + b"\0")
        obj = os.path.join(OUT, "obj", "%s-%s-%s.o" % (os.path.basename(src).replace(".cc", ""), config, h.hexdigest()[:24]))
        if not os.path.exists(obj):
            tmp = obj + ".tmp%d" % os.getpid()
            _run([CXX] + flags + inc + ["-c", src, "-o", tmp])
            os.rename(tmp, obj)
        else:
            os.utime(obj)
        return obj

    with ThreadPoolExecutor(8) as pool:
        objs = list(pool.map(compile_one, files))
    key = hashlib.sha256("\n".join(objs).encode()).hexdigest()[:24]
    libs = ["-lprotobuf", "-labsl_raw_hash_set", "-labsl_hash", "-labsl_city", "-labsl_low_level_hash", "-labsl_hashtablez_sampler", "-labsl_throw_delegate", "-labsl_raw_logging_internal", "-ldl"]
    san = [f for f in CONFIGS[config] if f.startswith("-fsanitize=")]
    if extra_main:
        out = os.path.join(OUT, "bin", "%s-%s" % (config, key))
        cmd = [CXX, "-pthread"] + san + objs + ["-o", out + ".tmp"] + libs
    else:
        os.makedirs(os.path.join(OUT, "bin", "%s-%s" % (config, key)), exist_ok=True)
        out = os.path.join(OUT, "bin", "%s-%s" % (config, key), "libwrapper.so")
        cmd = [CXX, "-shared", "-pthread"] + san + objs + ["-o", out + ".tmp"] + libs
    if not os.path.exists(out):
        _run(cmd)
        os.rename(out + ".tmp", out)
    _prune()
    return out


def _prune(limit=3 * 1024**3):
    """Drop the oldest cached objects when the cache grows too large."""
    for sub in ("obj", "bin"):
        base = os.path.join(OUT, sub)
        entries = []
        for root, _, names in os.walk(base):
            for n in names:
                p = os.path.join(root, n)
                try:
                    st = os.stat(p)
                except OSError:
                    continue
                entries.append((st.st_mtime, st.st_size, p))
        total = sum(e[1] for e in entries)
        for _, size, p in sorted(entries):
            if total <= limit:
                break
            try:
                os.remove(p)
            except OSError:
                pass
            total -= size


def runtime(name):
    """Path of a sanitizer runtime for LD_PRELOAD."""
    return os.path.realpath(_run([CXX, "-print-file-name=" + name]).strip())


if __name__ == "__main__":
    for c in sys.argv[1:] or ["rel"]:
        try:
            print(build(c))
        except BuildError as e:
            print(e)
            sys.exit(3)
