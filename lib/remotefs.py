"""File systems that are not local for the code under test: every protocol shows a folder, transfers are recorded, delayed or failed."""
import os
import threading
import time

import fsspec
from fsspec.spec import AbstractFileSystem


class Control:
    def __init__(self):
        self.lock = threading.Lock()
        self.roots = {}
        self.reset()

    def reset(self, r=None, delay=0.0, fail=None):
        """fail: a function of the running number of a transfer returning an exception or None."""
        self.r, self.delay, self.fail = r, delay, fail
        self.fetched, self.failures, self.written = [], 0, []

    def transfer(self, protocol, path):
        with self.lock:
            self.fetched.append((protocol, path))
            err = self.fail(len(self.fetched)) if self.fail else None
            if err is not None:
                self.failures += 1
                raise err
        if self.delay:
            time.sleep(self.r.random() * self.delay)


CONTROL = Control()


class RemoteFS(AbstractFileSystem):
    protocol = "vremote"
    root_marker = "/"
    cachable = False

    def __init__(self, **options):
        # As the ones that fail on options they do not know.
        for name in ("path", "host"):
            if name in options:
                raise TypeError("unexpected option %s" % name)
        super().__init__(**options)

    @classmethod
    def _strip_protocol(cls, path):
        if isinstance(path, list):
            return [cls._strip_protocol(p) for p in path]
        path = os.fspath(path)
        if "://" in path:
            path = path.split("://", 1)[1]
        return "/" + path.strip("/")

    def _real(self, path):
        return os.path.join(CONTROL.roots[self.protocol], self._strip_protocol(path).lstrip("/"))

    def _entry(self, path):
        real = self._real(path)
        if os.path.isdir(real):
            return {"name": self._strip_protocol(path), "size": 0, "type": "directory"}
        return {"name": self._strip_protocol(path), "size": os.path.getsize(real), "type": "file"}

    def ls(self, path, detail=True, **kwargs):
        path = self._strip_protocol(path)
        real = self._real(path)
        if not os.path.exists(real):
            raise FileNotFoundError(path)
        if os.path.isdir(real):
            names = [path.rstrip("/") + "/" + n for n in sorted(os.listdir(real))]
        else:
            names = [path]
        return [self._entry(n) for n in names] if detail else names

    def _open(self, path, mode="rb", block_size=None, autocommit=True, cache_options=None, **kwargs):
        if "r" not in mode:
            CONTROL.written.append((self.protocol, path, mode))
            raise PermissionError(path)
        CONTROL.transfer(self.protocol, self._strip_protocol(path))
        return open(self._real(path), "rb")

    def _rm(self, path):
        CONTROL.written.append((self.protocol, path, "rm"))
        raise PermissionError(path)


class OtherFS(RemoteFS):
    protocol = "vother"


def register(**roots):
    """Show a folder under every protocol: register(vremote=folder, vother=folder)."""
    CONTROL.roots.update(roots)
    for cls in (RemoteFS, OtherFS):
        fsspec.register_implementation(cls.protocol, cls, clobber=True)
    return CONTROL
