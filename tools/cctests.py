"""Build the repository's own C++ tests against the shim and run them. A guard for fixes, not a check."""
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build

lib = build.build("rel")
gen = build._generate()
out = os.path.join(build.OUT, "cctests")
os.makedirs(out, exist_ok=True)
inc = []
for d in [gen, os.path.join(build.SHIM, "include"), build.REPO, os.path.join(build.REPO, "src/cc/lib")]:
    inc += ["-I", d]
names = ["mocks", "graph_test", "temporal_test", "distributed_test"]


def compile(n):
    o = os.path.join(out, n + ".o")
    build._run([build.CXX] + build.COMMON + ["-O1"] + inc + ["-c", os.path.join(build.REPO, "src/cc/tests", n + ".cc"), "-o", o])
    return o


with ThreadPoolExecutor(4) as ex:
    objs = list(ex.map(compile, names))
code = 0
for n, o in zip(names[1:], objs[1:]):
    exe = os.path.join(out, n)
    build._run([build.CXX, "-pthread", o, objs[0], lib, "-Wl,-rpath," + os.path.dirname(lib), "-lgtest", "-lgtest_main", "-lgmock", "-lprotobuf", "-labsl_raw_hash_set", "-labsl_hash", "-labsl_throw_delegate", "-o", exe])
    with tempfile.TemporaryDirectory() as tmp:
        p = subprocess.run([exe] + sys.argv[1:], cwd=tmp, env=dict(os.environ, TMPDIR=tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
    lines = [l for l in p.stdout.splitlines() if l.startswith("[  FAILED") or l.startswith("[  PASSED") or "Failure" in l]
    print(n, p.returncode, *lines, sep="\n  ")
    with open(os.path.join(out, n + ".log"), "w") as f:
        f.write(p.stdout)
