"""A file system the code under test can be pointed at: local files behind another protocol name, with delays and faults."""
import os
import random
import threading
import time

import fsspec
from fsspec.implementations.local import LocalFileOpener, LocalFileSystem


class Control:
    def __init__(self):
        self.lock = threading.Lock()
        self.reset()

    def reset(self, seed=0, max_delay=0.0, short=False, fail=None):
        """fail: a function of the running number of a read returning an exception or None."""
        self.r = random.Random(seed)
        self.max_delay, self.fail = max_delay, fail
        self.reads, self.delays, self.failures = 0, 0, 0
        self.opened, self.finished, self.fetched = [], [], []

    def before_read(self, path):
        with self.lock:
            self.reads += 1
            n = self.reads
            delay = self.r.random() * self.max_delay if self.max_delay and self.r.random() < 0.7 else 0
            err = self.fail(n) if self.fail else None
            if err is not None:
                self.failures += 1
        if delay:
            self.delays += 1
            time.sleep(delay)
        if err is not None:
            raise err
        return n

    def after_read(self, n):
        with self.lock:
            self.finished.append(n)

    def inversions(self):
        return sum(1 for a, b in zip(self.finished, self.finished[1:]) if b < a)


CONTROL = Control()


class Opener(LocalFileOpener):
    def read(self, length=-1):
        n = CONTROL.before_read(self.path)
        try:
            return self.f.read(length)
        finally:
            CONTROL.after_read(n)


class SlowFS(LocalFileSystem):
    protocol = "vslow"
    root_marker = "/"

    @classmethod
    def _strip_protocol(cls, path):
        path = os.fspath(path)
        if path.startswith("vslow://"):
            path = path[len("vslow://") :]
        return super()._strip_protocol(path)

    def _open(self, path, mode="rb", block_size=None, **kw):
        path = self._strip_protocol(path)
        with CONTROL.lock:
            CONTROL.opened.append((path, mode))
        return Opener(path, mode, fs=self, **kw)

    def get_file(self, rpath, lpath, callback=None, **kw):
        with CONTROL.lock:
            CONTROL.fetched.append((self._strip_protocol(rpath), str(lpath)))
        return super().get_file(rpath, lpath, **kw)


def register():
    fsspec.register_implementation("vslow", SlowFS, clobber=True)
    return CONTROL
